"""P07: masks on the sphere and on meshes."""

import tomllib

import figures
import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**6, 5
CFG = """SPECIFICATION Spec
CONSTANTS Ls = {{{ls}}}
INVARIANTS Monotone GapCovers GapMirrored NorthPole BoxSize {emit}
CHECK_DEADLOCK FALSE
"""


def limit(half, pos, end):
    """The angle at a number of half steps."""
    k = half // 2
    if half % 2 == 0:
        return float(pos[k]) if k < len(pos) else float(end)
    hi = pos[k + 1] if k + 1 < len(pos) else end
    return float((pos[k] + hi) / 2)


def halves(x, pos):
    """The number of half steps of an angle."""
    below = int(np.sum(pos < x))
    return 2 * below if below < len(pos) and pos[below] == x else 2 * below - 1


def grid(L):
    import pyssht

    return pyssht.sample_positions(L, Method="MWSS")


def bits(m):
    return [[int(bool(x)) for x in row] for row in np.asarray(m)]


def region(**kw):
    return lib.get("sleplet.slepian", "Region")(**kw)


def make_mask(L, r):
    return lib.get("sleplet._mask_methods", "create_mask_region")(L, r)


def failed(e):
    return {"outcome": "error", "exc": f"{lib.exc_name(e)}: {e}"[:200]}


def call(out, fn):
    """The event, completed by what a call returns."""
    try:
        return out | {"outcome": "ok", **fn()}
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return {"rejected": False} | out | failed(e)


def mask_event(L, kw, r):
    t, _ = grid(L)
    tm = kw.get("theta_max", np.pi)
    south = np.pi - tm
    exact = bool(np.any(t == south) and np.any(np.pi - t == tm))
    e = {"kind": "mask", "L": L, "r": r, "mirror_exact": exact}
    return call(e, lambda: {"mask": bits(make_mask(L, region(**kw)))})


def from_case(c):
    L, r = c["L"], c["r"]
    t, p = grid(L)
    kw = {}
    if r["type"] == "polar":
        kw = {"theta_max": limit(r["tmax"], t, np.pi), "gap": r["gap"]}
    else:
        kw = {"theta_min": limit(r["tmin"], t, np.pi),
              "theta_max": limit(r["tmax"], t, np.pi),
              "phi_min": limit(r["pmin"], p, 2 * np.pi),
              "phi_max": limit(r["pmax"], p, 2 * np.pi)}
    return L, kw, r


def random_region(L, rng):
    """A region of arbitrary angles, with its limits in half steps."""
    t, p = grid(L)
    if rng.random() < 0.4:
        tm, gap = rng.uniform(0.02, 3.1), rng.random() < 0.5
        return {"theta_max": tm, "gap": gap}, {
            "type": "polar", "tmin": 0, "tmax": halves(tm, t), "pmin": 0,
            "pmax": 4 * L, "gap": gap}
    a, b = sorted(rng.uniform(0, np.pi) for _ in range(2))
    c, d = sorted(rng.uniform(0, 2 * np.pi) for _ in range(2))
    # limits below the first and above the last sample stay there
    return {"theta_min": a, "theta_max": b, "phi_min": c, "phi_max": d}, {
        "type": "lim_lat_lon", "tmin": halves(a, t), "tmax": halves(b, t),
        "pmin": halves(c, p), "pmax": halves(d, p), "gap": False}


def saved_events(L, rng, nrng):
    good = (nrng.uniform(size=(L + 1, 2 * L)) < 0.4).astype(
        rng.choice([bool, float, int]))
    out = []
    store.put_masks([])
    path = store.data_dir() / f"slepian_masks_vq_L{L}.npy"
    np.save(path, good)
    out.append(call({"kind": "saved", "L": L, "want": lib.qv(good.ravel(), SCALE)},
                    lambda: {"got": lib.qv(
                        np.asarray(make_mask(L, region(mask_name="vq"))).ravel(), SCALE)}))
    for shape in ((L + 1, 2 * L + 1), (L, 2 * L), (2 * L, L + 1), (L + 2, 2 * L + 2),
                  ((L + 1) * 2 * L,), (1, L + 1, 2 * L)):
        if shape == good.shape:
            continue
        np.save(path, np.ones(shape, dtype=bool))
        out.append(call({"kind": "saved", "L": L, "rejected": True, "want": [],
                         "shape": list(shape)},
                        lambda: {"got": [int(x) for x in np.shape(
                            make_mask(L, region(mask_name="vq")))]}))
    path.unlink()
    return out


def masked_event(L, reality, spin, rng, nrng):
    import pyssht

    kw, _ = random_region(L, rng)
    m = (nrng.uniform(size=(L + 1, 2 * L)) < 0.5)
    named = rng.random() < 0.6
    if named:
        sphere.save_mask("vr", m)
        sphere.save_mask("vrc", ~m)
        r, rc = region(mask_name="vr"), region(mask_name="vrc")
    else:
        r = region(**kw)
        m = np.asarray(make_mask(L, r)).astype(bool)
        sphere.save_mask("vrc", ~m)
        rc = region(mask_name="vrc")
    flm = nrng.standard_normal(L * L) + 1j * nrng.standard_normal(L * L)
    flm[: spin * spin] = 0
    f = pyssht.inverse(flm, L, Method="MWSS", Spin=spin)
    if reality:
        f = np.ascontiguousarray(f.real)
        flm = pyssht.forward(f, L, Method="MWSS", Reality=True)
    g = np.where(m, f, 0)
    want = pyssht.forward(g, L, Method="MWSS", Reality=reality, Spin=spin)
    fn = lib.get("sleplet._mask_methods", "ensure_masked_flm_bandlimited")

    def go():
        a = fn(flm.copy(), L, r, reality=reality, spin=spin)
        b = fn(flm.copy(), L, rc, reality=reality, spin=spin)
        return {"got": pairs(a), "want": pairs(want), "whole": pairs(a + b),
                "given": pairs(flm)}
    return call({"kind": "masked", "L": L, "reality": reality, "spin": spin, "tol": TOL},
                go)


def pairs(z):
    z = np.asarray(z).ravel()
    return lib.qv(z.real, SCALE) + lib.qv(z.imag, SCALE)


def plot_event(L, rng, nrng):
    PlotSphere = lib.get("sleplet.plotting", "PlotSphere")
    kw, _ = random_region(L, rng)
    r = region(**kw)
    m = np.asarray(make_mask(L, r)).astype(int)
    f = nrng.uniform(0.1, 1, size=(L + 1, 2 * L)) * rng.choice([1, -1])
    close = np.concatenate([np.arange(2 * L), [0]])

    def go():
        with figures.recorded() as figs:
            PlotSphere(f.astype(complex) if rng.random() < 0.5 else f, L, "x",
                       normalise=False, region=r, upsample=False).execute()
        shown = np.asarray(figs[0][0].data[0].surfacecolor)
        return {"shown": figures.colours(shown, SCALE),
                "field": figures.colours(f[:, close], SCALE),
                "marks": m[:, close].tolist()}
    return call({"kind": "plot", "L": L, "unseen": figures.HIDDEN}, go)


def box_event(where, nrng, rng):
    fn = lib.get(where, "create_mesh_region")
    n = 60
    v = nrng.integers(0, 5, size=(n, 3))
    box, cfg = [], {}
    for k in "XYZ":
        lo, hi = sorted(rng.randrange(0, 5) for _ in range(2))
        lo, hi = (lo if rng.random() < 0.7 else None), (hi if rng.random() < 0.7 else None)
        cfg[f"{k}MIN"] = -np.inf if lo is None else lo
        cfg[f"{k}MAX"] = np.inf if hi is None else hi
        box.append([-10**6 if lo is None else lo, 10**6 if hi is None else hi])
    e = {"kind": "mesh_box", "vertices": v.tolist(), "box": box, "where": where}
    return call(e, lambda: {"region": [int(x) for x in fn(cfg, v.astype(float))]})


def real_mesh_event(name, nrng):
    """A mesh of the package: its vertices and its configured box."""
    cfg = tomllib.loads((lib.REPO / "src/sleplet/_data" /
                         f"meshes_regions_{name}.toml").read_text())
    mesh = lib.get("sleplet.meshes", "Mesh")(name, number_basis_functions=2)
    v = np.asarray(mesh.vertices)
    box = []
    near = np.zeros(len(v))
    ok = np.ones(len(v), dtype=bool)
    for k, x in enumerate("XYZ"):
        lim = []
        for side in ("MIN", "MAX"):
            b = cfg[f"{x}{side}"]
            if np.isfinite(b):
                d = np.abs(v[:, k] - b)
                near = np.maximum(near, np.exp(-20 * d))
                ok &= (d == 0) | (d > 1e-6)
                lim.append(lib.q(b, 10**7))
            else:
                lim.append(-10**9 if side == "MIN" else 10**9)
        box.append(lim)
    pick = np.where(ok)[0]
    pick = np.concatenate([pick[np.argsort(-near[pick])][:120],
                           nrng.choice(pick, 80)])
    return {"kind": "mesh_box", "name": name, "outcome": "ok", "box": box,
            "vertices": [lib.qv(v[i], 10**7) for i in pick],
            "region": [int(mesh.mesh_region[i]) for i in pick]}


def synthetic_mesh(nrng, n=12, nf=20, k=4):
    mesh = lib.get("sleplet.meshes", "Mesh")("cube", number_basis_functions=k)
    mesh.vertices = nrng.standard_normal((n, 3))
    mesh.faces = np.array([nrng.choice(n, 3, replace=False) for _ in range(nf)])
    mesh.mesh_region = nrng.uniform(size=n) < 0.6
    return mesh


def faces_event(nrng):
    mesh = synthetic_mesh(nrng)
    fn = lib.get("sleplet._mask_methods", "convert_region_on_vertices_to_faces")
    PlotMesh = lib.get("sleplet.plotting", "PlotMesh")
    f = nrng.uniform(-1, 1, 12)
    inside = [int(i) for i in np.where(mesh.mesh_region)[0]]

    def go():
        on = [int(x) for x in fn(mesh)]
        with figures.recorded() as figs:
            PlotMesh(mesh, "x", f, normalise=False, region=True).execute()
        shown = figures.colours(figs[0][0].data[0].intensity, SCALE)
        return {"on_faces": on, "shown": shown}
    return call({"kind": "mesh_faces", "faces": mesh.faces.tolist(), "inside": inside,
                 "f": lib.qv(f[mesh.faces].mean(axis=1), SCALE),
                 "unseen": figures.HIDDEN}, go)


def mesh_masked_event(nrng):
    k, n = 5, 5
    mesh = synthetic_mesh(nrng, n=n, k=k)
    b, _ = np.linalg.qr(nrng.standard_normal((n, k)))
    mesh.basis_functions = b.T.copy()
    fn = lib.get("sleplet._mask_methods", "ensure_masked_bandlimit_mesh_signal")
    u = nrng.standard_normal(k)
    field = u @ mesh.basis_functions
    want = mesh.basis_functions @ np.where(mesh.mesh_region, field, 0)

    def go():
        a = fn(mesh, u.copy())
        mesh.mesh_region = ~mesh.mesh_region
        c = fn(mesh, u.copy())
        return {"got": lib.qv(a, SCALE), "want": lib.qv(want, SCALE),
                "whole": lib.qv(a + c, SCALE), "given": lib.qv(u, SCALE)}
    return call({"kind": "mesh_masked", "tol": TOL}, go)


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    cases = ctx.cases("MaskCases", CFG.format(ls="1, 2, 3", emit="Emit"))
    if not ctx.quick:
        cases += ctx.cases("MaskCases", CFG.format(ls="4, 5", emit="Emit"), timeout=3000)
    polar = [c for c in cases if c["r"]["type"] == "polar"]
    boxes = [c for c in cases if c["r"]["type"] != "polar"]
    store.use_dir(ctx.scratch / "masks")
    events = []
    n = 1 if ctx.quick else 8
    with ctx.unit("masks"):
        for c in polar + lib.sample(rng, boxes, 1000 * n):
            events.append(mask_event(*from_case(c)))
        for _ in range(150 * n):
            L = rng.randrange(1, 13)
            events.append(mask_event(L, *random_region(L, rng)))
        for L in (2, 4, 6, 8, 12, 16):
            # limits on samples, where the mirrored one is exact
            for k in range(1, L):
                for gap in (False, True):
                    r = {"type": "polar", "tmin": 0, "tmax": 2 * k, "pmin": 0,
                         "pmax": 4 * L, "gap": gap}
                    events.append(mask_event(*from_case({"L": L, "r": r})))
    with ctx.unit("saved masks"):
        for L in (1, 2, 3, 5, 8):
            events += saved_events(L, rng, nrng)
    with ctx.unit("masked signals"):
        for _ in range(40 * n):
            s = rng.choice([0, 0, 0, 1, 2])
            events.append(masked_event(rng.randrange(max(2, s + 1), 7),
                                       s == 0 and rng.random() < 0.5, s, rng, nrng))
    with ctx.unit("plots"):
        for _ in range(20 * n):
            events.append(plot_event(rng.randrange(2, 9), rng, nrng))
    for where in ("sleplet._mesh_methods", "sleplet._mask_methods"):
        with ctx.unit(f"mesh regions of {where}"):
            for _ in range(30 * n):
                events.append(box_event(where, nrng, rng))
    with ctx.unit("meshes"):
        for name in ("bird", "cheetah", "cube", "dragon", "homer", "teapot"):
            events.append(real_mesh_event(name, nrng))
    with ctx.unit("faces"):
        for _ in range(25 * n):
            events.append(faces_event(nrng))
    with ctx.unit("masked mesh signals"):
        for _ in range(15 * n):
            events.append(mesh_masked_event(nrng))
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("MaskTrace", events)
