"""P19: the spectra of meshes."""

import contextlib
import copy
import io
import os
import signal
import types

import functions
import lib
import numpy as np
import store
import tomllib

SCALE, TOL = 10**6, 20
MESHES = ("bird", "cheetah", "cube", "dragon", "homer", "teapot")


def cfg(one="FALSE", opened="FALSE", cut="FALSE", emit="FALSE"):
    return f"""SPECIFICATION CaseSpec
CONSTANTS OneSided = {one}
OpenBox = {opened}
Truncated = {cut}
Emitting = {emit}
INVARIANTS AsDeclared Symmetric ConstantsVanish IsEnergy IsBox IsNearest Emit
CHECK_DEADLOCK FALSE
"""


SOLUTION = """SPECIFICATION Spec
INVARIANTS Hermitian Eigenpairs Concentrated
CHECK_DEADLOCK FALSE
"""


def outcome(e, fn):
    try:
        return {"outcome": "ok", "why": "", **e, **fn()}
    except lib.Skip:
        raise
    except Exception as x:  # noqa: BLE001
        return {"outcome": "error", "why": f"{lib.exc_name(x)}: {x}"[:200], **e}


def cot_laplacian(v, f):
    """The cotangent Laplacian, from the inner products of the edges."""
    a = np.zeros((len(v), len(v)))
    for k in range(3):
        p, q, r = f[:, k], f[:, (k + 1) % 3], f[:, (k + 2) % 3]
        e, d = v[q] - v[p], v[r] - v[p]
        c = (e * d).sum(1) / np.linalg.norm(np.cross(e, d), axis=1) / 2
        np.add.at(a, (q, r), -c)
        np.add.at(a, (r, q), -c)
        np.add.at(a, (q, q), c)
        np.add.at(a, (r, r), c)
    return a


def sparse_laplacian(v, f):
    from scipy.sparse import coo_matrix

    rows, cols, vals = [], [], []
    for k in range(3):
        p, q, r = f[:, k], f[:, (k + 1) % 3], f[:, (k + 2) % 3]
        e, d = v[q] - v[p], v[r] - v[p]
        c = (e * d).sum(1) / np.linalg.norm(np.cross(e, d), axis=1) / 2
        rows += [q, r, q, r]
        cols += [r, q, q, r]
        vals += [-c, -c, c, c]
    at = np.concatenate(rows), np.concatenate(cols)
    return coo_matrix((np.concatenate(vals), at), shape=(len(v), len(v))).tocsr()


def torus(nrng, n, m):
    """A closed surface of n by m vertices, neither symmetric nor flat."""
    a, b = np.meshgrid(np.arange(n), np.arange(m), indexing="ij")
    t, p = 2 * np.pi * a / n, 2 * np.pi * b / m
    v = np.stack([(2 + np.cos(p)) * np.cos(t), (2 + np.cos(p)) * np.sin(t), np.sin(p)], -1)
    v = v.reshape(-1, 3) * nrng.uniform(0.5, 2, 3) + nrng.normal(0, 0.1, (n * m, 3))
    i, j = (a * m + b).ravel(), (a * m + (b + 1) % m).ravel()
    k = (((a + 1) % n) * m + b).ravel()
    h = (((a + 1) % n) * m + (b + 1) % m).ravel()
    f = np.concatenate([np.stack([i, k, j], 1), np.stack([k, h, j], 1)])
    return v, f[nrng.permutation(len(f))]


def surface(nrng, rng):
    v, f = torus(nrng, rng.choice([3, 4, 5]), rng.choice([3, 5, 7]))
    if rng.random() < 0.25:                     # of two parts
        w, g = torus(nrng, 3, 4)
        v, f = np.concatenate([v, w + 9]), np.concatenate([f, g + len(v)])
    elif rng.random() < 0.4:                    # with a boundary
        f = f[rng.randrange(1, 4):]
    return v, f


def rows(m, scale):
    return [lib.qv(r, scale) for r in np.asarray(m)]


def laplacians(cases):
    fn = lib.get("sleplet._mesh_methods", "_mesh_laplacian")
    box = lib.get("sleplet._mesh_methods", "create_mesh_region")
    for c in cases:
        v, f = np.array(c["vertices"], dtype=float), np.array(c["faces"]) - 1

        def go(v=v, f=f):
            m = fn(v, f)
            m = m.toarray() if hasattr(m, "toarray") else np.asarray(m)
            return {"got": rows(2 * m, 1000)}
        yield outcome({"kind": "laplacian", "vertices": c["vertices"], "faces": c["faces"],
                       "scale": 1000}, go)
        conf = {f"{a}{end}": float("inf") * np.sign(x) if abs(x) == 9 else x
                for a, b in zip("XYZ", c["box"], strict=True)
                for end, x in zip(("MIN", "MAX"), b, strict=True)}
        yield outcome({"kind": "region", "vertices": c["vertices"], "box": c["box"]},
                      lambda conf=conf, v=v: {"got": [bool(x) for x in box(conf, v)]})


def spectrum(e, v, f, k, ev, basis, number, dense=True):
    sparse = sparse_laplacian(v, f)
    lap = sparse.toarray() if dense else sparse
    top = abs(sparse).max()
    ev, basis = np.asarray(ev, float), np.asarray(basis, float)
    if basis.shape != (k, len(v)) or ev.shape != (k,):
        return e | {"k": k, "number": int(number), "ev": lib.qv(np.ravel(ev), 1), "gram": [],
                    "residual": [], "lowest": [], "scale": SCALE, "tol": TOL}
    res = np.abs(basis @ lap - ev[:, None] * basis).max(axis=1)
    low = np.linalg.eigvalsh(lap)[:k] if dense else []
    return e | {"k": k, "number": int(number), "ev": lib.qv(ev / top, SCALE),
                "gram": rows(basis @ basis.T, SCALE), "residual": lib.qv(res / top, SCALE),
                "lowest": lib.qv(np.asarray(low) / top, SCALE), "scale": SCALE, "tol": TOL}


def decompositions(ctx, rng, n):
    fn = lib.get("sleplet._mesh_methods", "mesh_eigendecomposition")
    nrng = np.random.default_rng(rng.randrange(2**31))
    for i in range(n):
        v, f = surface(nrng, rng)
        k = rng.choice([None, 1, 2, 5, len(v) // 2, len(v) - 2])
        store.use_dir(ctx.scratch / f"s{i}")

        def go(v=v, f=f, k=k):
            before = v.copy(), f.copy()
            ev, basis, number = fn("surface", v, f, number_basis_functions=k)
            out = spectrum({}, v, f, len(v) // 4 if k is None else k, ev, basis, number)
            same = all(np.array_equal(a, b) for a, b in zip(before, (v, f), strict=True))
            return out if same else out | {"outcome": "modified"}
        e = outcome({"kind": "spectrum", "what": f"surface {len(v)} {k}"}, go)
        # the zero eigenvalue of these small surfaces may be met exactly
        if "exactly singular" not in e["why"]:
            yield e


def read_off(path):
    with path.open() as f:
        words = f.read().split()
    n, m = int(words[1]), int(words[2])
    v = np.array(words[4:4 + 3 * n], dtype=float).reshape(n, 3)
    f = np.array(words[4 + 3 * n:4 + 3 * n + 4 * m], dtype=int).reshape(m, 4)[:, 1:]
    return v, f


def area(v, f):
    return np.linalg.norm(np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]),
                          axis=1).sum() / 2


def ranked(v, box):
    """Whole numbers which compare as the coordinates and bounds do."""
    out, lims = [], []
    for d in range(3):
        u = np.unique(np.concatenate([v[:, d], box[d]]))
        out.append(np.searchsorted(u, v[:, d]))
        lims.append([int(x) for x in np.searchsorted(u, box[d])])
    return np.stack(out, 1).tolist(), lims


@contextlib.contextmanager
def limited(seconds):
    """Meshes take seconds: those which would take all the time are failures."""
    def late(*_):
        raise TimeoutError
    before = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, before)


def meshes(ctx, rng, names, ks):
    data = lib.REPO / "src/sleplet/_data"
    for name in names:
        k = rng.choice(ks)
        store.use_dir(ctx.scratch / f"m-{name}-{k}")
        with (data / f"meshes_regions_{name}.toml").open("rb") as f:
            conf = tomllib.load(f)
        v, f = read_off(data / f"meshes_polygons_{conf['FILENAME']}")
        edges = {tuple(sorted(e)) for t in f.tolist()
                 for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))}
        got = {}

        def made(got=got, name=name, k=k):
            try:
                with limited(240):
                    got["mesh"] = functions.mesh(k, name)
            except TimeoutError:
                got["late"] = True
                raise
            return got["mesh"]

        def shape(v=v, f=f, edges=edges, made=made, conf=conf):
            m = made()
            new = {tuple(x) for x in np.round(m.vertices[len(v):], 9).tolist()}
            mid = {tuple(x) for x in
                   np.round((v[[a for a, _ in edges]] + v[[b for _, b in edges]]) / 2, 9)}
            box = [[float(conf[a + "MIN"]), float(conf[a + "MAX"])] for a in "XYZ"]
            pick = np.array(rng.sample(range(len(m.vertices)), 400))
            near = np.argsort([min((abs(x[d] - b) for d in range(3) for b in box[d]
                                    if np.isfinite(b)), default=0) for x in m.vertices])
            pick = np.concatenate([pick, near[:300]])
            at, lims = ranked(m.vertices, box)
            return {"vertices": len(m.vertices), "faces": len(m.faces),
                    "kept": bool(np.allclose(m.vertices[:len(v)], v, atol=1e-9)),
                    "midpoints": len(m.vertices) - len(v) if new <= mid else -1,
                    "area": lib.q(area(m.vertices, m.faces) / area(v, f), SCALE),
                    "raw_area": SCALE, "sample": [at[i] for i in pick], "box": lims,
                    "got": [bool(m.mesh_region[i]) for i in pick]}
        yield outcome({"kind": "mesh", "name": name, "raw": [len(v), len(edges), len(f)],
                       "levels": conf["UPSAMPLE"], "tol": 3}, shape)
        if "mesh" not in got:
            if got.get("late"):
                return
            continue
        m = got["mesh"]
        yield outcome({"kind": "spectrum", "what": f"{name} {k}"},
                      lambda m=m, k=k: spectrum(
                          {}, m.vertices, m.faces, k, m.mesh_eigenvalues,
                          m.basis_functions, m.number_basis_functions, dense=False))
        if len(m.basis_functions) != k:
            return            # seen above; as many as there may be would take hours
        yield slepian(m, f"{name} {k}")


def slepian(mesh, what):
    keep = (mesh.basis_functions.copy(), mesh.mesh_region.copy(),
            mesh.mesh_eigenvalues.copy(), mesh.vertices.copy())
    k, n = mesh.basis_functions.shape
    r = keep[1].astype(float)

    def go():
        ms = lib.get("sleplet.meshes", "MeshSlepian")(mesh)
        w = np.asarray(ms.slepian_functions, float)
        f = w @ keep[0]
        return {
            "N": int(ms.N), "ev": lib.qv(ms.slepian_eigenvalues, SCALE),
            "gram": rows(w @ w.T, SCALE), "reg": rows((f * r) @ f.T, SCALE),
            "kept": all(np.array_equal(a, b) for a, b in zip(
                keep, (mesh.basis_functions, mesh.mesh_region, mesh.mesh_eigenvalues,
                       mesh.vertices), strict=True))}
    return outcome({"kind": "slepian", "what": what, "k": k, "n": n, "c": int(r.sum()),
                    "energy": lib.q((keep[0]**2 @ r).sum(), SCALE), "scale": SCALE,
                    "tol": TOL}, go)


def concentrations(ctx, rng, n):
    nrng = np.random.default_rng(rng.randrange(2**31))
    store.use_dir(ctx.scratch / "c")
    got = {}

    def build():
        with limited(240):
            got["mesh"] = functions.mesh(2)
        return {"got": len(got["mesh"].basis_functions)}
    e = outcome({"kind": "mesh size", "k": 2}, build)
    yield e
    if e["outcome"] != "ok":
        return
    for i in range(n):
        store.use_dir(ctx.scratch / f"c{i}")
        mesh = copy.deepcopy(got["mesh"])
        V = rng.choice([6, 9, 14])
        k = rng.randrange(1, min(V, 11) + 1)
        b, _ = np.linalg.qr(nrng.standard_normal((V, k)))
        mesh.basis_functions = b.T.copy()
        mesh.mesh_eigenvalues = np.arange(k) + 0.5
        mesh.number_basis_functions = k
        mesh.vertices = nrng.standard_normal((V, 3))
        share = rng.choice([0, 0.2, 0.5, 0.5, 0.8, 1])
        mesh.mesh_region = nrng.uniform(size=V) < share
        os.environ["NCPU"] = str(rng.choice([1, 2, 3, 4, 8, 16]))
        try:
            yield slepian(mesh, f"random, NCPU {os.environ['NCPU']}")
        finally:
            os.environ.pop("NCPU")


def shannons(top):
    fn = lib.get("sleplet._slepian_arbitrary_methods", "compute_mesh_shannon")
    for n in range(1, top):
        for c in range(n + 1):
            for k in {0, 1, 2, 3, n // 2, n, 7}:
                mesh = types.SimpleNamespace(
                    mesh_eigenvalues=np.zeros(k), basis_functions=np.zeros((k, n)),
                    number_basis_functions=k, vertices=np.zeros((n, 3)),
                    mesh_region=np.arange(n) < c)
                yield outcome({"kind": "shannon", "k": k, "c": c, "n": n},
                              lambda mesh=mesh: {"got": int(fn(mesh))})


def run(ctx):
    rng = ctx.rng
    ctx.model("EigenBasis", SOLUTION)
    for kw in ({"one": "TRUE"}, {"opened": "TRUE"}, {"cut": "TRUE"}):
        ctx.model("MeshSpectrumCases", cfg(**kw), expect_violation=True)
    cases = ctx.cases("MeshSpectrumCases", cfg(emit="TRUE"))
    events = []
    with contextlib.redirect_stdout(io.StringIO()):
        with ctx.unit("laplacian"):
            # all boxes are those of one face
            single = [c for c in cases if len(c["faces"]) == 1]
            events += laplacians(lib.sample(rng, single, 100 if ctx.quick else 1000)
                                 + lib.sample(rng, cases, 200 if ctx.quick else 2000))
        with ctx.unit("decomposition"):
            events += decompositions(ctx, rng, 25 if ctx.quick else 300)
        with ctx.unit("meshes"):
            events += meshes(ctx, rng, MESHES, (3, 8, 17) if ctx.quick else (20, 40, 60))
            if not ctx.quick:
                events += meshes(ctx, rng, MESHES, (1, 2, 5, 12, 33))
        with ctx.unit("concentration"):
            events += concentrations(ctx, rng, 30 if ctx.quick else 300)
        with ctx.unit("shannon"):
            events += shannons(9 if ctx.quick else 16)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("MeshSpectrumTrace", events)
