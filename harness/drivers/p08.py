"""P08: Slepian decomposition and reconstruction."""

import itertools

import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**5, 3
CFG = """SPECIFICATION Spec
CONSTANTS Dim = {dim}
Values = {{0, 1, 3}}
Conjugate = {conj}
INVARIANTS RoundTrip Complete Parseval Linear
CHECK_DEADLOCK FALSE
"""


def gauss(nrng, *shape):
    return (nrng.integers(-4, 5, size=shape) + 1j * nrng.integers(-4, 5, size=shape))


def ints(z):
    return [[int(round(x.real)), int(round(x.imag))] for x in np.asarray(z, complex).ravel()]


def fixed(z):
    return lib.qcv(np.asarray(z, dtype=complex).ravel(), SCALE)


def slepian(kind, L):
    mod = "sleplet.slepian"
    if kind == "polar":
        return lib.get(mod, "SlepianPolarCap")(L, store.rad(80))
    if kind == "gap":
        return lib.get(mod, "SlepianPolarCap")(L, store.rad(40), gap=True)
    if kind == "box":
        return lib.get(mod, "SlepianLimitLatLon")(
            L, theta_min=store.rad(20), theta_max=store.rad(150), phi_max=store.rad(250))
    return lib.get(mod, "SlepianArbitrary")(L, "vd")


def with_functions(L, vecs, vals, n):
    """A region whose functions are the given ones."""
    s = slepian("polar", L)
    s.eigenvectors = np.asarray(vecs, dtype=complex)
    s.eigenvalues = np.asarray(vals, dtype=float)
    s.N = n
    return s


def on_grid(vecs, L):
    """The functions at the samples, a row each."""
    t, p = sphere.mwss_grid(L)
    T, P = np.meshgrid(t, p, indexing="ij")
    return vecs @ sphere.ylm_matrix(L, T.ravel(), P.ravel())


def weights(L):
    t, p = sphere.mwss_grid(L)
    T, _ = np.meshgrid(t, p, indexing="ij")
    return (np.sin(T) * (np.pi / L) ** 2).ravel()


def attempt(event, fn):
    try:
        return event | {"outcome": "ok"} | fn()
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return event | {"outcome": "error", "got": [],
                        "exc": f"{lib.exc_name(e)}: {e}"[:200]}


def unit(rng):
    """Signals of all magnitudes: the transforms are linear."""
    return rng.choice([1, 1, 2.0**-60, 2.0**-30, 2.0**-12, 2.0**40])


def forward(*a, **k):
    return lib.get("sleplet.slepian_methods", "slepian_forward")(*a, **k)


def harmonic(L, nrng, rng):
    n = L * L
    vecs, flm = gauss(nrng, n, n), gauss(nrng, n)
    if rng.random() < 0.3:
        flm = flm.real.astype(float)
    s = with_functions(L, vecs, nrng.uniform(0.1, 1, n), rng.randrange(1, n + 1))
    k = rng.choice([None, 0, 1, n, rng.randrange(n)])
    m, u = s.N if k is None else k, unit(rng)
    return attempt({"kind": "harmonic", "L": L, "n": m, "flm": ints(flm), "scale": SCALE,
                    "vecs": [ints(v) for v in vecs], "tol": TOL, "unit": str(u)},
                   lambda: {"got": fixed(forward(L, s, flm=flm * u, **(
                       {} if k is None else {"n_coeffs": k})) / u)})


def larger(L, nrng, rng):
    """More functions than the other events have, a few of them at a time."""
    n, out = L * L, []
    vecs, vals = gauss(nrng, n, n) / 16, 2.0 ** -nrng.integers(0, 4, n)
    s = with_functions(L, vecs, vals, n)
    for _ in range(3):
        # with the last ones and few others
        flm = gauss(nrng, n) * (nrng.uniform(size=n) < 0.2)
        flm[-3:] = [1, 2j, -1]
        u = unit(rng)
        for k in (n, rng.randrange(n)):
            s.N = rng.randrange(1, n + 1)
            out.append(attempt(
                {"kind": "integral", "L": L, "masked": False, "tol": TOL,
                 "want": fixed((vecs.conj() @ flm)[:k])},
                lambda k=k, flm=flm, u=u: {"got": fixed(
                    forward(L, s, flm=flm * u, n_coeffs=k) / u)}))
    s.N = rng.randrange(n // 2, n)
    c = gauss(nrng, n) * (nrng.uniform(size=n) < 0.1)
    c[s.N - 1] = 2
    cells = np.array(rng.sample(range((L + 1) * 2 * L), 30))
    t, p = sphere.mwss_grid(L)
    T, P = np.meshgrid(t, p, indexing="ij")
    at = sphere.ylm_matrix(L, T.ravel()[cells], P.ravel()[cells])
    fn = lib.get("sleplet.slepian_methods", "slepian_inverse")
    out.append(attempt(
        {"kind": "inverse", "L": L, "N": s.N, "want": fixed(c[:s.N] @ vecs[:s.N] @ at),
         "tol": TOL}, lambda: {"got": fixed(fn(c, L, s).ravel()[cells])}))
    return out


def integrals(L, nrng, rng):
    """Fields of one sample each decide every linear functional of the samples."""
    n, out = L * L, []
    vecs = gauss(nrng, n, n)
    vals = 2.0 ** -nrng.integers(0, rng.choice([4, 50]), n)
    s = with_functions(L, vecs, vals, n)
    grid, w = on_grid(vecs, L), weights(L)
    shape = (L + 1, 2 * L)
    cells = list(range(shape[0] * shape[1]))
    fields = [np.eye(1, len(cells), c, dtype=complex)[0] * rng.choice([1, 1j, 3 - 2j])
              for c in lib.sample(rng, cells, 12)]
    fields += [gauss(nrng, len(cells)) for _ in range(3)]
    fields += [nrng.standard_normal(len(cells))]
    for f in fields:
        mask = nrng.uniform(size=len(cells)) < 0.6
        u = unit(rng)
        m = mask.reshape(shape).astype(rng.choice([bool, float]))
        for use in (False, True):
            g = (grid.conj() * w * (mask if use else 1)) @ f
            # a power of two: the coefficients times their eigenvalues are exact
            by = vals if use else 1
            out.append(attempt(
                {"kind": "integral", "L": L, "masked": use, "want": fixed(g),
                 "tol": TOL},
                lambda f=f, m=m, use=use, u=u, by=by: {"got": fixed(forward(
                    L, s, f=f.reshape(shape) * u, n_coeffs=n,
                    **({"mask": m} if use else {})) * by / u)}))
    return out


def methods(L, nrng):
    n, out = L * L, []
    vecs = gauss(nrng, n, n)
    vals = 2.0 ** -nrng.integers(1, 4, n)
    s = with_functions(L, vecs, vals, n)
    grid, w = on_grid(vecs, L), weights(L)
    shape = (L + 1, 2 * L)
    f, flm = gauss(nrng, w.size), gauss(nrng, n)
    mask = nrng.uniform(size=w.size) < 0.5
    want = {"harmonic": fixed(vecs.conj() @ flm),
            "sphere": fixed((grid.conj() * w) @ f),
            "region": fixed((grid.conj() * w * mask) @ f / vals)}
    for gl, gf, gm in itertools.product([False, True], repeat=3):
        kw = ({"flm": flm} if gl else {}) | ({"f": f.reshape(shape)} if gf else {})
        kw |= {"mask": mask.reshape(shape)} if gm else {}
        out.append(attempt(
            {"kind": "method", "given_flm": gl, "given_f": gf, "given_mask": gm,
             "tol": TOL, **want},
            lambda kw=kw: {"got": fixed(forward(L, s, n_coeffs=n, **kw))}))
    return out


def ranks(L, nrng):
    n, out = L * L, []
    vecs, flm = gauss(nrng, n, n), gauss(nrng, n)
    s = with_functions(L, vecs, np.ones(n), n)
    sd = lib.get("sleplet.slepian._slepian_decomposition", "SlepianDecomposition")(
        L, s, flm=flm)
    for h in (*range(-4, 2 * n + 5), -200, 2 * n + 200):
        r = h // 2 if h % 2 == 0 else h / 2
        ok = h % 2 == 0 and 0 <= h < 2 * n
        want = fixed([vecs[h // 2].conj() @ flm])[0] if ok else [0, 0]
        out.append(attempt({"kind": "rank", "halves": h, "number": n, "want": want,
                            "tol": TOL},
                           lambda r=r: {"got": fixed([sd.decompose(r)])[0]}))
    for k in (-1, 0, 1, n - 1, n, n + 1, n + 7):
        s.N = int(nrng.integers(1, n))
        out.append(attempt(
            {"kind": "count", "n": k, "number": n, "shannon": s.N,
             "default": len(forward(L, s, flm=flm))},
            lambda k=k: {"length": len(forward(L, s, flm=flm, n_coeffs=k))}))
    return out


def inverse_events(L, nrng, rng):
    n = L * L
    vecs = gauss(nrng, n, n) / 4
    N = rng.randrange(1, n + 1)
    s = with_functions(L, vecs, np.ones(n), N)
    c = gauss(nrng, rng.choice([N, n]))
    if rng.random() < 0.3:
        c = c.real
    want, u = c[:N] @ on_grid(vecs[:N], L), unit(rng)
    fn = lib.get("sleplet.slepian_methods", "slepian_inverse")
    om = lib.get("sleplet.slepian_methods", "compute_s_p_omega")
    return [
        attempt({"kind": "inverse", "L": L, "N": N, "want": fixed(want), "tol": TOL},
                lambda: {"got": fixed(fn(c * u, L, s) / u)}),
        attempt({"kind": "inverse", "L": L, "N": N, "tol": TOL,
                 "want": fixed(on_grid(vecs[:N], L))},
                lambda: {"got": fixed(om(L, s))}),
    ]


def roundtrip(kind, L, nrng):
    """Real Slepian functions; the field is transformed to be decomposed again."""
    import pyssht

    s = slepian(kind, L)
    out = []
    for _ in range(3):
        c = gauss(nrng, s.N)
        fn = lib.get("sleplet.slepian_methods", "slepian_inverse")
        out.append(attempt(
            {"kind": "roundtrip", "region": kind, "L": L, "want": fixed(c), "tol": 2 * TOL},
            lambda c=c: {"got": fixed(forward(
                L, s, flm=pyssht.forward(fn(c, L, s), L, Method="MWSS")))}))
    # a decomposition with the warm files gives the same
    flm = gauss(nrng, L * L)
    cold = fixed(s.eigenvectors[: s.N].conj() @ flm)
    w = slepian(kind, L)
    out.append(attempt({"kind": "roundtrip", "region": kind, "L": L, "want": cold,
                        "tol": 2 * TOL}, lambda: {"got": fixed(forward(L, w, flm=flm))}))
    return out


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    ctx.model("DecompositionCases", CFG.format(dim=2, conj="TRUE"))
    if not ctx.quick:
        ctx.model("DecompositionCases", CFG.format(dim=3, conj="TRUE"))
    ctx.model("DecompositionCases", CFG.format(dim=2, conj="FALSE"), expect_violation=True)
    store.use_dir(ctx.scratch / "d")
    for L in range(2, 7):
        sphere.save_mask("vd", sphere.blob_mask(2 * L, nrng))
    events, n = [], 1 if ctx.quick else 12
    with ctx.unit("harmonic sums"):
        for _ in range(60 * n):
            events.append(harmonic(rng.choice([1, 2, 2, 3]), nrng, rng))
    with ctx.unit("integrals"):
        for _ in range(3 * n):
            for L in (2, 3, 4):
                events += integrals(L, nrng, rng)
    with ctx.unit("larger bandlimits"):
        for L in (6, 9, 11, 17) if ctx.quick else (6, 7, 8, 9, 10, 12, 13, 16, 17, 20):
            events += larger(L, nrng, rng)
    with ctx.unit("methods"):
        for L in (2, 3) * n:
            events += methods(L, nrng)
    with ctx.unit("ranks"):
        for L in (1, 2, 3):
            events += ranks(L, nrng) if L > 1 else []
    with ctx.unit("reconstruction"):
        for _ in range(15 * n):
            events += inverse_events(rng.choice([2, 3, 4]), nrng, rng)
    with ctx.unit("round trips"):
        for kind in ("polar", "gap", "box", "mask"):
            for L in (2, 3, 4) if ctx.quick else (2, 3, 4, 5, 6):
                events += roundtrip(kind, L, nrng)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("DecompositionTrace", events)
