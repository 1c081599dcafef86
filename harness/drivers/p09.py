"""P09: sifting convolution, translation and rotation."""

import lib
import numpy as np
import sphere
import store
from drivers.p08 import attempt, fixed, gauss, ints, on_grid, unit, with_functions

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**5, 6
CFG = """SPECIFICATION Spec
CONSTANTS Dim = {dim}
Conjugate = {conj}
INVARIANTS Linear AntiLinear Exchanged Unit OwnPower Prefix Commutes {emit}
CHECK_DEADLOCK FALSE
"""


def sift(f, g, n):
    kw = {} if n < 0 else {"shannon": n}
    return lib.get("sleplet._convolution_methods", "sifting_convolution")(f, g, **kw)


def cplx(v):
    return np.array([complex(*x) for x in v], dtype=complex)


def rows(a):
    return [fixed(r) for r in np.atleast_2d(a)]


def vector_events(cases):
    for c in cases:
        f, g, n = cplx(c["f"]), cplx(c["g"]), c["n"]
        yield attempt({"kind": "sift", **c, "scale": SCALE, "tol": TOL},
                      lambda f=f, g=g, n=n: {"got": fixed(sift(f, g, n))})


def scaled(f, g, n, rng, back):
    """The convolution of the same with other magnitudes."""
    u, v = unit(rng), unit(rng)
    return back(sift(f * u, g * v, n) / (u * v))


def set_events(nrng, rng, count):
    for i in range(count):
        d, k = rng.randrange(1, 12), rng.randrange(1, 5)
        n = rng.choice([-1, 0, d, rng.randrange(1, d + 3)])
        f = gauss(nrng, k, d)
        if rng.random() < 0.4:
            f = f.real.astype(rng.choice([float, complex]))
        base = {"n": n, "scale": SCALE, "tol": TOL, "f": [ints(r) for r in f]}
        if i % 3 == 0:
            g = gauss(nrng, d)
            yield attempt({"kind": "sift_set", "g": ints(g), **base},
                          lambda f=f, g=g, n=n: {"got": scaled(f, g, n, rng, rows)})
        elif i % 3 == 1:
            g = gauss(nrng, k, d)
            yield attempt({"kind": "sift_sets", "g": [ints(r) for r in g], **base},
                          lambda f=f, g=g, n=n: {"got": scaled(f, g, n, rng, rows)})
        else:
            g = gauss(nrng, d)
            yield attempt({"kind": "sift", "g": ints(g), **base, "f": ints(f[0])},
                          lambda f=f, g=g, n=n: {"got": scaled(f[0], g, n, rng, fixed)})


def harmonic(name, L, **kw):
    return lib.get("sleplet.functions", name)(L, **kw)


def points(nrng, rng, count):
    out = [(0.0, 0.0), (1.0, 0.0), (0.0, np.pi), (np.pi, np.pi / 2), (2 * np.pi - 0.1, 3),
           (-0.7, 1.1), (-np.pi, 2.0), (2 * np.pi, 0.4), (7.5, 2.8), (-6.9, 0.3)]
    out += [(float(nrng.uniform(0, 2 * np.pi)), float(nrng.uniform(0, np.pi)))
            for _ in range(count)]
    # and right next to some of them
    close = [3e-4, -2e-4, 0.0]
    return out + [(a + rng.choice(close), b + rng.choice(close[:2])) for a, b in out
                  if 0.1 < b < 3][:6] + [(1.5 + d, 0.75) for d in (2e-4, -2e-4, 3e-2)]


def translations(L, nrng, rng, n):
    for alpha, beta in points(nrng, rng, n):
        y = sphere.ylm_matrix(L, np.array([beta]), np.array([alpha]))[:, 0]
        for name in ("Gaussian", "HarmonicGaussian", "SphericalHarmonic", "Identity"):
            h = harmonic(name, L)
            c = gauss(nrng, L * L)
            if rng.random() < 0.3:
                c = c.real.astype(complex)
            cut = rng.choice([-1, -1, L, 1])
            kw, u = {} if cut < 0 else {"shannon": cut}, unit(rng)
            h.coefficients = c * u
            yield attempt(
                {"kind": "translate", "function": name, "L": L, "n": cut, "f": ints(c),
                 "values": fixed(y), "tol": TOL, "angles": [str(alpha), str(beta)]},
                lambda h=h, kw=kw, u=u: {"got": fixed(h.translate(alpha, beta, **kw) / u)})
        yield attempt(
            {"kind": "delta", "function": "DiracDelta", "L": L, "values": fixed(y),
             "tol": TOL, "angles": [str(alpha), str(beta)]},
            lambda: {"got": fixed(harmonic("DiracDelta", L).translate(alpha, beta))})


def slepian_translations(L, N, nrng, rng):
    """At every sample: the location of the point in the grid is part of it."""
    n = L * L
    vecs = gauss(nrng, n, n) / 4
    s = with_functions(L, vecs, np.ones(n), N)
    grid = on_grid(vecs[:N], L).reshape(N, L + 1, 2 * L)
    theta, phi = sphere.mwss_grid(L)
    reg = lib.get("sleplet.slepian", "Region")(theta_max=store.rad(80))
    fun = lib.get("sleplet.functions", "SlepianIdentity")(L, region=reg)
    delta = lib.get("sleplet.functions", "SlepianDiracDelta")(L, region=reg)
    fun.slepian = delta.slepian = s
    cells = [(i, j) for i in range(L + 1) for j in range(2 * L)]
    for i, j in lib.sample(rng, cells, 24):
        values = np.concatenate([grid[:, i, j], np.zeros(n - N)])
        c = gauss(nrng, n)
        fun.coefficients = c.copy()
        for cut in (-1, N):
            kw = {} if cut < 0 else {"shannon": cut}
            yield attempt(
                {"kind": "translate", "function": "Slepian", "L": L, "n": cut,
                 "f": ints(c), "values": fixed(values), "tol": TOL, "cell": [i, j]},
                lambda: {"got": fixed(fun.translate(phi[j], theta[i], **kw))})
        # as many coefficients as are used
        fun.coefficients = c[:N].copy()
        f = lib.get("sleplet.functions", "SlepianDiracDelta")
        yield attempt(
            {"kind": "delta", "function": f.__name__, "L": L, "values": fixed(values),
             "tol": TOL, "cell": [i, j]},
            lambda: {"got": fixed(delta.translate(phi[j], theta[i]))})
    # any point stands for a sample next to it, or is taken as it is
    for _ in range(10):
        a, b = float(nrng.uniform(-7, 13)), float(nrng.uniform(0, np.pi))
        if rng.random() < 0.4:
            a = 2 * np.pi * rng.choice([-1, 1, 2]) - float(nrng.uniform(0, np.pi / L))
        exact = (vecs[:N] @ sphere.ylm_matrix(L, np.array([b]), np.array([a])))[:, 0]
        d_t = np.abs(theta - b)
        d_p = np.abs(np.angle(np.exp(1j * (phi - a))))
        if min(np.diff(np.sort(d_t))[0], np.diff(np.sort(d_p))[0]) < 1e-3:
            continue
        near = grid[:, d_t.argmin(), d_p.argmin()]
        for f, kind in ((fun, "near"), (delta, "near_delta")):
            c = gauss(nrng, n)
            fun.coefficients = c.copy()
            yield attempt(
                {"kind": kind, "function": "Slepian", "L": L, "n": N, "f": ints(c[:N]),
                 "values": fixed(near), "exact": fixed(exact), "tol": TOL,
                 "angles": [str(a), str(b)]},
                lambda f=f: {"got": fixed(f.translate(a, b, shannon=N)[:N])})
    yield attempt({"kind": "undefined", "what": "rotation of Slepian coefficients"},
                  lambda: {"got": fixed(fun.rotate(0.1, 0.2))})


def ssht_positions(L, nrng, rng):
    """The samples as the package has them, of larger grids."""
    import pyssht

    t, p = pyssht.sample_positions(L, Method="MWSS")
    vecs = np.zeros((2, L * L), dtype=complex)
    vecs[0, [1, 2, 3]] = [0.5, 1, 0.25j]
    vecs[1, [4, 7, 0]] = [1, 0.5j, 0.3]
    vals = np.pad(vecs, ((0, L * L - 2), (0, 0)))
    s = with_functions(2, np.eye(4), np.ones(4), 2)
    s.eigenvectors, s.N = vals, 2
    fn = lib.get("sleplet.slepian_methods", "_compute_s_p_omega_prime")
    for i in range(L + 1):
        j = rng.randrange(2 * L)
        y = sphere.ylm_matrix(3, t[[i]], p[[j]])[:, 0]
        want = vecs[:, :9] @ y
        yield attempt({"kind": "delta", "L": L, "cell": [i, j], "function": "values",
                       "values": fixed(want.conj()), "tol": TOL},
                      lambda: {"got": fixed(fn(L, p[j], t[i], s)[:2])})


def euler(alpha, beta, gamma):
    def z(a):
        return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])

    y = np.array([[np.cos(beta), 0, np.sin(beta)], [0, 1, 0],
                  [-np.sin(beta), 0, np.cos(beta)]])
    return z(alpha) @ y @ z(gamma)


def rotations(L, nrng, rng, n):
    for k in range(n):
        a, b, g = nrng.uniform(0, 2 * np.pi), nrng.uniform(0, np.pi), nrng.uniform(
            0, 2 * np.pi)
        if k == 0:
            b = 0.0
        if k % 4 == 3:
            a, g = a - 2 * np.pi, g + 2 * np.pi
        if k % 3 == 0:
            a = 0.0
        if k % 3 == 1:
            g = 0.0
        t, p = np.arccos(nrng.uniform(-1, 1, 8)), nrng.uniform(0, 2 * np.pi, 8)
        x = np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
        v = euler(a, b, g).T @ x
        t0, p0 = np.arccos(np.clip(v[2], -1, 1)), np.arctan2(v[1], v[0])
        name = rng.choice(["Gaussian", "HarmonicGaussian", "DiracDelta", "Identity"])
        h = harmonic(name, L)
        if k % 2:
            h.coefficients = gauss(nrng, L * L)
        c, u = np.array(h.coefficients), unit(rng)
        h.coefficients = c * u
        want = c @ sphere.ylm_matrix(L, t0, p0)
        kw = {} if g == 0 else {"gamma": g}
        yield attempt(
            {"kind": "rotate", "function": name, "L": L, "want": fixed(want), "tol": 20,
             "angles": [str(a), str(b), str(g)]},
            lambda: {"got": fixed(h.rotate(a, b, **kw) / u @ sphere.ylm_matrix(L, t, p))})


def convolutions(L, nrng, rng, n):
    """The method of the functions does what the convolution does."""
    for _ in range(n):
        h = harmonic(rng.choice(["Gaussian", "DiracDelta", "Identity"]), L)
        f, g = gauss(nrng, L * L), gauss(nrng, L * L)
        cut = rng.choice([-1, rng.randrange(1, L * L + 1)])
        kw = {} if cut < 0 else {"shannon": cut}
        yield attempt({"kind": "sift", "f": ints(f), "g": ints(g), "n": cut,
                       "scale": SCALE, "tol": TOL},
                      lambda: {"got": fixed(h.convolve(f, g, **kw))})


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    cases = ctx.cases("SiftingCases", CFG.format(dim=2, conj="TRUE", emit="Emit"))
    ctx.model("SiftingCases", CFG.format(dim=3 if ctx.quick else 4, conj="TRUE", emit=""))
    ctx.model("SiftingCases", CFG.format(dim=2, conj="FALSE", emit=""),
              expect_violation=True)
    store.use_dir(ctx.scratch / "d")
    events, n = [], 1 if ctx.quick else 10
    with ctx.unit("vectors"):
        events += vector_events(cases)
    with ctx.unit("sets"):
        events += set_events(nrng, rng, 150 * n)
    with ctx.unit("translations"):
        for L in (2, 3, 5, 8) if ctx.quick else range(2, 12):
            events += translations(L, nrng, rng, 4 * n)
    with ctx.unit("convolutions"):
        for L in (1, 2, 3, 5):
            events += convolutions(max(L, 2), nrng, rng, 8 * n)
    with ctx.unit("Slepian translations"):
        for L in (2, 3, 4, 5) if ctx.quick else range(2, 9):
            for N in {1, rng.randrange(1, L * L), L * L}:
                events += slepian_translations(L, N, nrng, rng)
    with ctx.unit("samples"):
        for L in (3, 6, 7, 10, 12, 14) if ctx.quick else range(3, 48):
            events += ssht_positions(L, nrng, rng)
    with ctx.unit("rotations"):
        for L in (2, 3, 6) if ctx.quick else range(2, 10):
            events += rotations(L, nrng, rng, 9 * n)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("SiftingTrace", events)
