"""P13: hard thresholding."""

import functions
import lib
import numpy as np
import store
from drivers.p08 import attempt, gauss, ints, on_grid, slepian, unit, weights, with_functions
from drivers.p07 import synthetic_mesh
from drivers.p12 import level

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE = 10**4


def cfg(scales, pixels, ns, *, skip=0, strict="FALSE", first="FALSE", inplace="FALSE",
        emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Scales = {scales}
Pixels = {pixels}
Ns = {{{", ".join(map(str, ns))}}}
Skip = {skip}
Strict = {strict}
FirstSigma = {first}
InPlace = {inplace}
Emitting = {emit}
INVARIANTS InputKept RowByRow Idempotent NothingWithoutThreshold ScalingAlone Never AtThresholdKept Emit
CHECK_DEADLOCK FALSE
"""


def module(name):
    return lib.get("sleplet.noise", name)


def cplx(v):
    return np.array([complex(*x) for x in v], dtype=complex)


def fixed(z):
    return lib.qcv(np.asarray(z, dtype=complex).ravel(), SCALE)


def rows(a):
    return [fixed(r) for r in np.asarray(a)]


def values(case, rng):
    """Exactly, values at the threshold included."""
    for row, s in zip(case["rows"], case["sigma"], strict=False):
        f = cplx(row)
        if not f.imag.any() and case["n"] % 2:
            f = f.real.copy()
        a = unit(rng)
        before, f = f.copy(), f * a

        def go(f=f, s=s, a=a):
            got = module("_perform_hard_thresholding")(f, float(s) * a, case["n"])
            return {"got": ints(got / a), "after": ints(f / a)}
        yield attempt({"kind": "values", "f": ints(before), "sigma": s, "n": case["n"]}, go)


def pointwise(nrng, rng):
    f = gauss(nrng, 3, 4)
    sigma = nrng.integers(0, 6, size=(3, 4))
    n, a = rng.choice([0, 1, 2, 3]), unit(rng)
    return attempt({"kind": "pointwise", "f": ints(f), "sigma": sigma.ravel().tolist(),
                    "n": n}, lambda: {"got": ints(module("_perform_hard_thresholding")(
                        f * a, sigma * a, n) / a)})


def away(mags, nrng, rng):
    """A threshold away from every magnitude; below all, above all, or between."""
    top = mags.max()
    for _ in range(200):
        t = rng.choice([0.0, top * 1.3 + 1, rng.uniform(0, top), rng.uniform(0, top)])
        if np.abs(mags - t).min() > 1e-3 or t == 0:
            return t
    return 0.0


def field_scale(f, thresholds, basis):
    """A field, its thresholds and what each pixel gives to the coefficients."""
    f, t = f.ravel(), np.broadcast_to(thresholds, f.shape).ravel()
    return {"mags": lib.qv(np.abs(f), SCALE), "thresholds": lib.qv(t, SCALE),
            "parts": [fixed(f[i] * basis[i]) for i in range(len(f))]}


def harmonic_parts(L):
    """The coefficients of each pixel, which depend on it linearly."""
    import pyssht as ssht

    shape = (L + 1, 2 * L)
    out = []
    for i in range(shape[0] * shape[1]):
        u = np.zeros(shape, dtype=complex)
        u.ravel()[i] = 1
        out.append(ssht.forward(u, L, Method="MWSS"))
    return np.array(out)


def harmonic(L, nrng, rng):
    k, a = rng.randrange(1, 7 if L < 6 else 3), unit(rng)
    w = gauss(nrng, k, L * L) / 2
    parts = harmonic_parts(L)
    eye = on_grid(np.eye(L * L), L)
    n = rng.choice([1, 2, 3, 10])
    fields = (w @ eye)[1:]
    ts = [away(np.abs(f), nrng, rng) for f in fields]
    # samples of a pole may differ by rounding
    sigma = np.array(ts) / n * a
    before = w.copy()
    w *= a

    def go():
        got = module("harmonic_hard_thresholding")(L, w, sigma, n)
        return {"got": rows(got / a), "after": rows(w / a)}
    return attempt({"kind": "rows", "what": "harmonic", "L": L, "skip": 1, "n": n,
                    "scales": [field_scale(f, t, parts) for f, t in zip(fields, ts)],
                    "before": rows(before), "tol": 40}, go)


def random_slepian(L, nrng, rng):
    """Any orthonormal functions, truncated anywhere."""
    d = L * L
    q, _ = np.linalg.qr(gauss(nrng, d, d) + 5 * np.eye(d))
    n = rng.randrange(1, d + 1)
    return with_functions(L, q.T.copy(), np.linspace(1, 0.1, d), n), q.T, n


def pixel_sigma(f, nrng, rng):
    t = nrng.uniform(0, np.abs(f).max() + 0.1, size=f.shape)
    near = np.abs(np.abs(f) - t) < 2e-3
    return np.where(near, t + 1e-2, t)


def slepian_rows(L, nrng, rng):
    s, q, n = random_slepian(L, nrng, rng)
    k = rng.randrange(1, 4)
    w = gauss(nrng, k, n) / 2
    if rng.random() < 0.3:
        w = w.real.copy()
    grid = on_grid(q[:n], L)
    basis = (grid.conj() * weights(L)).T
    shape = (L + 1, 2 * L)
    fields = w @ grid
    m = rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        ts = [pixel_sigma(f, nrng, rng) for f in fields]
        sigma = np.array([t.reshape(shape) / m for t in ts])
    else:
        ts = [away(np.abs(f), nrng, rng) for f in fields]
        sigma = np.array(ts) / m
    before, a = w.copy(), unit(rng)
    w, sigma = w * a, sigma * a

    def go():
        got = module("slepian_wavelet_hard_thresholding")(L, w, sigma, m, s)
        return {"got": rows(got / a), "after": rows(w / a)}
    yield attempt({"kind": "rows", "what": "slepian", "L": L, "skip": 0, "n": m, "N": n,
                   "real": not np.iscomplexobj(w),
                   "scales": [field_scale(f, t, basis) for f, t in zip(fields, ts)],
                   "before": rows(before), "tol": 40}, go)
    c = gauss(nrng, rng.choice([n, L * L])) / 2
    f = c[:n] @ grid
    t = away(np.abs(f), nrng, rng)
    old = c.copy()
    c = c * a

    def single():
        got = module("slepian_function_hard_thresholding")(L, c, t / m * a, m, s)
        return {"got": [fixed(got / a)], "after": rows([c / a])}
    yield attempt({"kind": "rows", "what": "slepian_function", "L": L, "skip": 0, "n": m,
                   "scales": [field_scale(f, t, basis)], "before": rows([old]),
                   "tol": 40}, single)


def random_mesh(nrng, rng):
    """A mesh whose basis and Slepian functions are any orthonormal ones."""
    n = rng.choice([5, 7])
    k = rng.randrange(2, n + 1)
    mesh = synthetic_mesh(nrng, n=n, k=max(k, 4))
    k = max(k, 4)
    b, _ = np.linalg.qr(nrng.standard_normal((n, k)))
    mesh.basis_functions = b.T.copy()
    mesh.mesh_eigenvalues = np.arange(1.0, k + 1)
    mesh.number_basis_functions = k
    ms = functions.lib.get("sleplet.meshes", "MeshSlepian")(functions.mesh(4))
    ms.mesh = mesh
    q, _ = np.linalg.qr(nrng.standard_normal((k, k)))
    ms.slepian_functions = q.T.copy()
    ms.slepian_eigenvalues = np.linspace(1, 0.1, k)
    ms.N = rng.randrange(1, k + 1)
    return ms, b.T, q.T, ms.N, k


def mesh_rows(nrng, rng):
    ms, b, q, n, k = random_mesh(nrng, rng)
    grid = q[:n] @ b
    w = nrng.integers(-6, 7, size=(rng.randrange(1, 4), n)) / 2
    fields = w @ grid
    m = rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        ts = [pixel_sigma(f, nrng, rng) for f in fields]
        sigma = np.array(ts) / m
    else:
        ts = [away(np.abs(f), nrng, rng) for f in fields]
        sigma = np.array(ts) / m
    before, a = w.copy(), unit(rng)
    w, sigma = w * a, sigma * a

    def go():
        got = module("slepian_mesh_hard_thresholding")(ms, w, sigma, m)
        return {"got": rows(got / a), "after": rows(w / a)}
    yield attempt({"kind": "rows", "what": "mesh", "skip": 0, "n": m, "N": n,
                   "scales": [field_scale(f, t, grid.T) for f, t in zip(fields, ts)],
                   "before": rows(before), "tol": 40}, go)
    psi = nrng.uniform(-1, 1, size=(rng.randrange(1, 4), k))
    signal, snr = nrng.integers(1, 5, size=k).astype(float), rng.choice([-10, 0, 3.0])
    want = level(signal, snr) * np.sqrt((psi[:, :n] ** 2) @ (np.abs(grid) ** 2))
    yield attempt({"kind": "sigma", "what": "mesh", "tol": 10,
                   "want": [lib.qv(x, SCALE) for x in want]},
                  lambda: {"got": [lib.qv(x.ravel(), SCALE) for x in module(
                      "compute_slepian_mesh_sigma_j")(ms, signal * a, psi, snr) / a]})


def sigmas(L, nrng, rng):
    k, a, b = rng.randrange(1, 5), unit(rng), unit(rng)
    snr = rng.choice([-10, 0, 3.0, 10])
    psi, signal = gauss(nrng, k, L * L) / 3, gauss(nrng, L * L)
    signal[0] = 1
    want = level(signal, snr) * np.sqrt((np.abs(psi) ** 2).sum(axis=1))
    yield attempt({"kind": "sigma", "what": "harmonic", "tol": 10,
                   "want": [lib.qv([x], SCALE) for x in want]},
                  lambda: {"got": [lib.qv([x], SCALE) for x in module("_compute_sigma_j")(
                      signal * a, psi * b, snr) / a / b]})
    s, q, n = random_slepian(L, nrng, rng)
    signal = gauss(nrng, rng.choice([n, L * L]))
    signal[0] = 2
    psi = nrng.uniform(-1, 1, size=(k, L * L))
    power = (psi[:, :n] ** 2) @ (np.abs(on_grid(q[:n], L)) ** 2)
    yield attempt({"kind": "sigma", "what": "slepian", "tol": 10,
                   "want": [lib.qv(x, SCALE) for x in level(
                       signal, snr, L * L) * np.sqrt(power)]},
                  lambda: {"got": [lib.qv(x.ravel(), SCALE) for x in module(
                      "_compute_slepian_sigma_j")(
                          L, signal * a, psi * b, snr, s) / a / b]})


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    ctx.model("ThresholdCases", cfg(2, 2, (0, 1, 2)))
    ctx.model("ThresholdCases", cfg(3, 1, (0, 1, 2), skip=1))
    for broken in ("strict", "first", "inplace"):
        ctx.model("ThresholdCases", cfg(2, 1, (1, 2), **{broken: "TRUE"}),
                  expect_violation=True)
    cases = ctx.cases("ThresholdCases", cfg(2, 2, (0, 1, 2), emit="TRUE"), flat=False)
    store.use_dir(ctx.scratch / "d")
    slepian("polar", 2)
    events, n = [], 1 if ctx.quick else 10
    with ctx.unit("values"):
        for c in lib.sample(rng, cases, 600 * n):
            events += values(c, rng)
        for _ in range(30 * n):
            events.append(pointwise(nrng, rng))
    with ctx.unit("harmonic"):
        for _ in range(25 * n):
            events.append(harmonic(rng.randrange(1, 5), nrng, rng))
        for L in [6, 8, 5] if ctx.quick else [*range(5, 10)] * 2:
            events.append(harmonic(L, nrng, rng))
    with ctx.unit("slepian"):
        for _ in range(20 * n):
            events += slepian_rows(rng.randrange(2, 4), nrng, rng)
        for L in [5, 6] if ctx.quick else [4, 5, 6, 7]:
            events += slepian_rows(L, nrng, rng)
    with ctx.unit("mesh"):
        for _ in range(25 * n):
            events += mesh_rows(nrng, rng)
    with ctx.unit("sigmas"):
        for _ in range(25 * n):
            events += sigmas(rng.randrange(2, 5), nrng, rng)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("ThresholdTrace", events)
