"""P20: transforms and functions on meshes."""

import functions
import lib
import numpy as np
import store
from drivers.p08 import unit

SCALE, TOL = 10**6, 20
MESHES = ("bird", "cheetah", "cube", "dragon", "homer", "teapot")


def cfg(first="FALSE", full="FALSE", undivided="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS FieldFirst = {first}
AllFunctions = {full}
Undivided = {undivided}
Emitting = {emit}
INVARIANTS AsDeclared Rejected RoundTrip Agreement Back Inside Emit
CHECK_DEADLOCK FALSE
"""


def outcome(e, fn):
    try:
        return {"outcome": "ok", "why": "", "kept": True, **e, **fn()}
    except lib.Skip:
        raise
    except Exception as x:  # noqa: BLE001
        return {"outcome": "error", "why": f"{lib.exc_name(x)}: {x}"[:200], "kept": True, **e}


def whole(x):
    """Exact whole numbers, out of range where they are not whole."""
    x = np.atleast_1d(np.asarray(x))
    r = np.round(x.real)
    return [int(b) if abs(a - b) < 1e-9 and abs(b) < 10**8 else 10**9
            for a, b in zip(x, r, strict=True)]


class Bench:
    """A mesh whose functions are given."""

    def __init__(self):
        self.mesh = functions.mesh(2)
        self.ms = lib.get("sleplet.meshes", "MeshSlepian")(self.mesh)
        self.ms.mesh = self.mesh

    def put(self, basis, w, inv, mask, number):
        basis, w = np.array(basis, float), np.array(w, float)
        k, n = basis.shape
        m, ms = self.mesh, self.ms
        m.basis_functions, m.number_basis_functions = basis, k
        m.mesh_eigenvalues = np.arange(k) + 1.0
        m.mesh_region = np.array(mask, bool)
        m.vertices = np.arange(3.0 * n).reshape(n, 3)
        m.faces = np.array([[0, 1, 2]])
        ms.slepian_functions, ms.N = w, number
        ms.slepian_eigenvalues = 1 / np.array(inv, float)
        self.saved = [a.copy() for a in self.arrays()]

    def arrays(self):
        return (self.mesh.basis_functions, self.mesh.mesh_region, self.ms.slepian_functions,
                self.ms.slepian_eigenvalues, self.mesh.vertices)

    def kept(self, *pairs):
        return all(np.array_equal(a, b) for a, b in zip(self.arrays(), self.saved,
                                                        strict=True)) and all(
            np.array_equal(a, b) for a, b in pairs)


def transforms(bench, case, dtype, a=1):
    b = bench
    b.put(case["basis"], case["w"], case["inv"], case["mask"], case["number"])
    H, S = "sleplet.harmonic_methods", "sleplet.slepian_methods"
    u, c = np.array(case["u"], dtype) * a, np.array(case["c"], dtype) * a
    u0, c0 = u.copy(), c.copy()

    def go(fn, *args, **kw):
        got = fn(*args, **kw)
        return {"got": whole(got / a), "kept": b.kept((u, u0), (c, c0))}

    yield outcome({"kind": "forward", "basis": case["basis"], "u": case["u"]},
                  lambda: go(lib.get(H, "mesh_forward"), b.mesh, u))
    yield outcome({"kind": "inverse", "basis": case["basis"], "c": case["c"]},
                  lambda: go(lib.get(H, "mesh_inverse"), b.mesh, c))
    kw = {}
    if "field" in case["given"]:
        kw["u"] = u
    if "coefficients" in case["given"]:
        kw["u_i"] = c
    if "mask" in case["given"]:
        kw["mask"] = True
    if case["n"] >= 0:
        kw["n_coeffs"] = case["n"]
    keep = {k: case[k] for k in ("basis", "w", "inv", "mask", "number", "u", "c", "n",
                                 "given")}
    yield outcome({"kind": "coefficients", **keep},
                  lambda: go(lib.get(S, "slepian_mesh_forward"), b.ms, **kw))
    f = case.get("f", case["c"])
    v = np.array(f, dtype) * a
    v0 = v.copy()

    def back():
        out = go(lib.get(S, "slepian_mesh_inverse"), b.ms, v)
        return out | {"kept": out["kept"] and np.array_equal(v, v0)}
    if len(f) >= case["number"]:
        yield outcome({"kind": "slepian_inverse", "basis": case["basis"], "w": case["w"],
                       "f": f, "number": case["number"]}, back)
    if "rank" in case and (set(case["given"]) - {"mask"}):
        kw.pop("n_coeffs", None)
        dec = lib.get("sleplet.meshes._mesh_slepian_decomposition",
                      "MeshSlepianDecomposition")
        yield outcome({"kind": "rank", "rank": case["rank"], **keep},
                      lambda: {"got": whole(
                          dec(b.ms, **kw).decompose(case["rank"]) / a)[0]})


def random_case(rng, *, large=False):
    n, k = rng.choice([3, 4, 6]), rng.choice([1, 2, 3, 5])
    if large:
        n, k = rng.randint(10, 40), rng.randint(6, 30)

    def vec(m, top=4):
        return [rng.randint(-top, top) for _ in range(m)]
    number = rng.randrange(0, k + 1)
    return {"basis": [vec(n) for _ in range(k)], "w": [vec(k) for _ in range(k)],
            "inv": [rng.choice([1, 2, 4]) for _ in range(k)],
            "mask": [rng.random() < 0.6 for _ in range(n)], "number": number,
            "u": vec(n, 9), "c": vec(k, 9), "n": rng.choice([-1, 0, 1, k, k, k + 1]),
            "f": vec(rng.choice([number, k]), 9), "rank": rng.randint(-2, k + 1),
            "given": rng.choice([["field"], ["coefficients"], ["field", "mask"],
                                 ["field", "mask"], ["field", "coefficients"],
                                 ["coefficients", "mask"],
                                 ["field", "coefficients", "mask"], ["mask"], []])}


def normals(v, f):
    c = np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
    out = np.zeros_like(v)
    for k in range(3):
        np.add.at(out, f[:, k], c)
    return out / np.linalg.norm(out, axis=1)[:, None]


def fixed(x, s=1.0):
    x = np.asarray(x)
    return lib.qv(x.real / s, SCALE) if not np.iscomplexobj(x) or not x.imag.any() else []


def both(name, mesh, kw, order, args):
    """A function with its arguments by name, or as those of the command."""
    if args and all(kw.get(k) is not None for k in order):
        return functions.on_mesh(name, mesh, extra_args=[kw[k] for k in order])
    return functions.on_mesh(name, mesh, **kw)


def mesh_functions(rng, name, k):
    mesh = functions.mesh(k, name)
    basis = np.asarray(mesh.basis_functions)
    field = normals(mesh.vertices, np.asarray(mesh.faces, int))[:, 1] @ basis.T
    ms = lib.get("sleplet.meshes", "MeshSlepian")(mesh)
    w, n = np.asarray(ms.slepian_functions), int(ms.N)
    what = f"{name} {k}"
    saved = [mesh.basis_functions.copy(), mesh.vertices.copy(), mesh.mesh_region.copy()]

    def same(fn, want):
        s = np.abs(want).max() or 1

        def go():
            f = fn()
            keep = all(np.array_equal(a, b) for a, b in zip(
                saved, (mesh.basis_functions, mesh.vertices, mesh.mesh_region), strict=True))
            return {"got": fixed(f.coefficients, s) if keep else [],
                    "want": lib.qv(want / s, SCALE)}
        return go

    flags = [{}, {"region": True}]
    for kw in flags:
        yield outcome({"kind": "normals", "what": what, "tol": TOL},
                      same(lambda kw=kw: functions.on_mesh("MeshField", mesh, **kw), field))
        yield outcome({"kind": "same", "what": "slepian field " + what, "tol": TOL},
                      same(lambda kw=kw: functions.on_mesh("MeshSlepianField", mesh, **kw),
                           w[:n] @ field))
    for fn, top in (("MeshBasisFunctions", k), ("MeshSlepianFunctions", n)):
        for r in sorted({0, top - 1, rng.randrange(max(top, 1))} if top else ()):
            for args in (False, True):
                yield outcome(
                    {"kind": "unit", "what": fn + " " + what, "rank": r, "n": top,
                     "one": SCALE, "tol": TOL},
                    lambda fn=fn, r=r, args=args: {"got": fixed(both(
                        fn, mesh, {"rank": r}, ["rank"], args).coefficients)})
    if n:
        kw = functions.scales(k, rng)
        first = functions.on_mesh("MeshSlepianWavelets", mesh, **(kw | {"j": None}))
        top = len(first.wavelets) - 2
        for j in sorted({-1, 0, top, rng.randint(-1, top)}):
            args = rng.random() < 0.5

            def rows(j=j, args=args):
                f = both("MeshSlepianWavelets", mesh, kw | {"j": None if j < 0 else j},
                         ["B", "j_min", "j"], args)
                return {"got": fixed(f.coefficients), "sets": [fixed(r) for r in f.wavelets]}
            yield outcome({"kind": "wavelet", "what": what, "tol": TOL, "j": j}, rows)
        top = np.abs(w[:n] @ field).max()

        def sets():
            f = both("MeshSlepianWaveletCoefficients", mesh, kw | {"j": None},
                     ["B", "j_min", "j"], args)
            psi = functions.on_mesh("MeshSlepianWavelets", mesh, **(kw | {"j": None}))
            want = np.asarray(psi.wavelets)[0, :n] * (w[:n] @ field)
            return {"got": fixed(f.coefficients, top), "want": lib.qv(want / top, SCALE)}
        yield outcome({"kind": "same", "what": "wavelet coefficients " + what, "tol": TOL},
                      sets)
    yield outcome({"kind": "same", "what": "round trip " + what, "tol": TOL},
                  lambda: round_trip(rng, mesh, ms, k, n))


def round_trip(rng, mesh, ms, k, n):
    H, S = "sleplet.harmonic_methods", "sleplet.slepian_methods"
    nrng = np.random.default_rng(rng.randrange(2**31))
    c, p = nrng.standard_normal(k), nrng.standard_normal(n)
    inv, fwd = lib.get(H, "mesh_inverse"), lib.get(H, "mesh_forward")
    back, to = lib.get(S, "slepian_mesh_inverse"), lib.get(S, "slepian_mesh_forward")
    u = back(ms, p)
    got = [fwd(mesh, inv(mesh, c)), to(ms, u=u), to(ms, u_i=fwd(mesh, u))]
    # functions with little energy in the region are divided by almost zero
    big = np.asarray(ms.slepian_eigenvalues)[:n] > 1e-4
    got.append(to(ms, u=u, mask=True)[big])
    want = [c, p, p, p[big]]
    return {"got": fixed(np.concatenate(got)), "want": fixed(np.concatenate(want))}


def on_faces(rng, n):
    """Fields on vertices, one or several, to the faces."""
    fn = lib.get("sleplet._mesh_methods", "average_functions_on_vertices_to_faces")
    for _ in range(n):
        nv, nu, a = rng.randrange(3, 9), rng.choice((1, 1, 2, 5, 17)), unit(rng)
        faces = [rng.sample(range(nv), 3) for _ in range(rng.randrange(1, 12))]
        u = [[rng.randrange(-40, 41) for _ in range(nv)] for _ in range(nu)]
        one = nu == 1 and rng.random() < 0.5
        v, w = np.array(u[0] if one else u, float) * a, np.array(faces)

        def go(v=v, w=w, a=a):
            v0, w0 = v.copy(), w.copy()
            got = np.asarray(fn(w, v)) * 3 / a
            return {"got": whole(got) if got.ndim == 1 else [whole(g) for g in got],
                    "kept": np.array_equal(v, v0) and np.array_equal(w, w0)}
        yield outcome({"kind": "faces", "faces": faces, "u": u, "one": one}, go)


def run(ctx):
    rng = ctx.rng
    for kw in ({"first": "TRUE"}, {"full": "TRUE"}, {"undivided": "TRUE"}):
        ctx.model("MeshTransformCases", cfg(**kw), expect_violation=True)
    cases = ctx.cases("MeshTransformCases", cfg(emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    events = []
    with ctx.unit("transforms"):
        bench = Bench()
        for c in lib.sample(rng, cases, 300 if ctx.quick else 3000):
            events += transforms(bench, c, float)
        for i in range(400 if ctx.quick else 5000):
            kind = int if i % 5 == 0 else float
            events += transforms(bench, random_case(rng, large=i % 16 == 3), kind,
                                 1 if kind is int else unit(rng))
    with ctx.unit("faces"):
        events += on_faces(rng, 60 if ctx.quick else 600)
    for name in MESHES:
        for k in rng.sample((4, 7, 10, 13), 1) if ctx.quick else (4, 7, 10, 16, 25):
            with ctx.unit(f"{name} {k}"):
                events += mesh_functions(rng, name, k)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("MeshTransformTrace", events)
