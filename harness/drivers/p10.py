"""P10: wavelets tile their domain and reconstruct signals."""

import lib
import numpy as np
import sphere
import store
from drivers.p08 import attempt, fixed, gauss, ints, unit

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL, KAPPA = 10**5, 6, 10**4
CFG = """SPECIFICATION Spec
CONSTANTS Sizes = {{{sizes}}}
Bs = {{{bs}}}
DropEmpty = {drop}
INVARIANTS NonNegative Partition Support Neighbours Reconstructs SlepianReconstructs {emit}
CHECK_DEADLOCK FALSE
"""


def cfg(sizes, bs, drop="FALSE", emit=""):
    return CFG.format(sizes=", ".join(map(str, sizes)), bs=", ".join(map(str, bs)),
                      drop=drop, emit=emit)


def methods(name):
    return lib.get("sleplet.wavelet_methods", name)


def jmax(B, n, j0):
    import pys2let

    return pys2let.pys2let_j_max(B, n, j0)


def rows(a):
    return [fixed(r) for r in np.asarray(a)]


def real_rows(a):
    return [lib.qv(np.real(r), KAPPA) for r in np.asarray(a)]


def tiling(source, n, B, j0, fn):
    return attempt({"kind": "tiling", "source": source, "n": n, "B": B, "j0": j0,
                    "jmax": jmax(B, n, j0), "scale": KAPPA, "tol": 8 * KAPPA},
                   lambda: {"rows": real_rows(fn())}) 


def root(L):
    """sqrt((2l+1) / 4 pi) for each index, or without the first."""
    ell = np.sqrt(np.arange(L * L)).astype(int)
    return np.sqrt((2 * ell + 1) / (4 * np.pi)), ell


def tilings(cases):
    for c in {(c["n"], c["B"], c["j0"]) for c in cases}:
        n, B, j0 = c
        yield tiling("kappas", n, B, j0, lambda: methods("create_kappas")(n, B, j0))


def harmonic_rows(w, L):
    """The generating functions which axisymmetric wavelets stand for."""
    r, ell = root(L)
    zonal = [e * e + e for e in range(L)]
    other = [i for i in range(L * L) if i not in zonal]
    if np.abs(w[:, other]).sum() or np.abs(np.imag(w)).sum() > 1e-12:
        return np.full((len(w), L), -1.0)           # not axisymmetric, or not real
    return (w / r)[:, zonal].real


def wavelet_functions(L, B, j0, reg):
    f = "sleplet.functions"
    yield tiling("AxisymmetricWavelets", L, B, j0, lambda: harmonic_rows(
        lib.get(f, "AxisymmetricWavelets")(L, B=B, j_min=j0).wavelets, L))
    yield tiling("SlepianWavelets", L * L, B, j0, lambda: lib.get(f, "SlepianWavelets")(
        L, B=B, j_min=j0, region=reg).wavelets)


def expand(L, psi):
    """Axisymmetric wavelets whose factors are the given numbers per degree."""
    r, ell = root(L)
    out = np.zeros((len(psi), L * L), dtype=complex)
    for e in range(L):
        out[:, e * e + e] = psi[:, e] * r[e * e + e]
    return out, [ints(p[ell]) for p in psi]


def axisymmetric(L, k, nrng, rng):
    psi, f = gauss(nrng, k, L), gauss(nrng, L * L)
    if rng.random() < 0.3:
        psi = psi.real + 0j
    wav, per_index = expand(L, psi)
    w = gauss(nrng, k, L * L)
    a, b = unit(rng), unit(rng)
    return [
        attempt({"kind": "analysis", "L": L, "f": ints(f), "psi": per_index,
                 "scale": SCALE, "tol": TOL},
                lambda: {"got": rows(methods("axisymmetric_wavelet_forward")(
                    L, f * a, wav * b) / a / b)}),
        attempt({"kind": "synthesis", "L": L, "w": [ints(x) for x in w],
                 "psi": per_index, "scale": SCALE, "tol": TOL},
                lambda: {"got": fixed(methods("axisymmetric_wavelet_inverse")(
                    L, w * a, wav * b) / a / b)}),
    ]


def slepian(d, k, nrng, rng):
    """Any rows, some of them empty within the truncation."""
    n = rng.choice([1, d, rng.randrange(1, d + 1)])
    psi = gauss(nrng, k, d)
    if rng.random() < 0.5:
        psi = psi.real.astype(float)
    for j in range(k):
        if rng.random() < 0.35:
            psi[j, :n] = 0
    f = gauss(nrng, rng.choice([n, d]))
    base = {"n": n, "psi": [ints(p) for p in psi], "scale": SCALE, "tol": TOL}
    w = gauss(nrng, rng.randrange(1, k + 1), n)
    a, b = unit(rng), np.array([unit(rng) for _ in range(k)])[:, None]
    both, m = unit(rng), len(w)

    def analyse():
        got = methods("slepian_wavelet_forward")(f * a, psi * b, n)
        return {"got": rows(got / a / b[:len(got)])}
    return [
        attempt({"kind": "slepian_analysis", "f": ints(f), **base},
                analyse),
        attempt({"kind": "slepian_synthesis", "w": [ints(x) for x in w], **base,
                 "psi": [ints(p) for p in psi[:len(w)]]},
                lambda: {"got": fixed(methods("slepian_wavelet_inverse")(
                    w * a / b[:m], psi * b * both, n) / a / both)}),
    ]


def roundtrips(case, nrng, rng):
    n, B, j0, cut = case["n"], case["B"], case["j0"], case["cut"]
    k = methods("create_kappas")(n, B, j0)
    f, a = gauss(nrng, n if rng.random() < 0.5 else cut), unit(rng)
    yield attempt(
        {"kind": "roundtrip", "what": "slepian", **case, "f": ints(f[:cut]),
         "scale": SCALE, "tol": TOL},
        lambda: {"got": fixed(methods("slepian_wavelet_inverse")(
            methods("slepian_wavelet_forward")(f * a, k, cut), k, cut) / a)})
    if n <= 12:
        wav = methods("_create_axisymmetric_wavelets")(n, B, j0)
        g = gauss(nrng, n * n)
        yield attempt(
            {"kind": "roundtrip", "what": "axisymmetric", **case, "f": ints(g),
             "scale": SCALE, "tol": TOL},
            lambda: {"got": fixed(methods("axisymmetric_wavelet_inverse")(
                n, methods("axisymmetric_wavelet_forward")(n, g * a, wav),
                wav) / a)})


def selections(name, make, n, B, j0, sets, tol=TOL):
    for j in [None, *range(jmax(B, n, j0) - j0 + 1)]:
        kw = {"B": B, "j_min": j0} | ({} if j is None else {"j": j})

        def go(kw=kw):
            h = make(**kw)
            return {"got": fixed(h.coefficients), "sets": rows(getattr(h, sets))}
        yield attempt({"kind": "selection", "function": name, "n": n, "B": B, "j0": j0,
                       "j": -1 if j is None else j, "tol": tol}, go)


def all_selections(L, B, j0, reg):
    f = "sleplet.functions"

    def of(name, **more):
        return lambda **kw: lib.get(f, name)(L, **kw, **more)
    yield from selections("AxisymmetricWavelets", of("AxisymmetricWavelets"), L, B, j0,
                          "wavelets")
    yield from selections("SlepianWavelets", of("SlepianWavelets", region=reg), L * L, B,
                          j0, "wavelets")
    yield from selections("Ridgelets", of("Ridgelets", spin=0), L, B, j0, "wavelets")
    for c in ("Earth", "SouthAmerica", "Africa"):
        name = f"AxisymmetricWaveletCoefficients{c}"
        yield from selections(name, of(name), L, B, j0, "wavelet_coefficients")


def ring(L, s):
    """The circle theta = pi/2 in harmonics of spin s, up to its phase."""
    import scipy.special as sp

    out = np.zeros(L)
    for ell in range(abs(s), L):
        k = abs(s)
        p = sp.lpmv(k, ell, 0) * (-1) ** k              # without Condon-Shortley
        p *= np.exp((sp.gammaln(ell - k + 1) - sp.gammaln(ell + k + 1)) / 2)
        out[ell] = abs(2 * np.pi * np.sqrt((2 * ell + 1) / (4 * np.pi)) * p)
    return out


def ridgelet_sets(L, B, j0, s):
    """Magnitudes: the sign is a convention of the ring."""
    k = methods("create_kappas")(L, B, j0)
    want = np.zeros((len(k), L * L))
    for e in range(L):
        want[:, e * e + e] = k[:, e] * ring(L, s)[e]
    want[1:] /= np.sqrt(2 * np.pi)
    return attempt({"kind": "sets", "function": "Ridgelets", "L": L, "spin": s, "B": B,
                    "j0": j0, "want": rows(want), "tol": TOL},
                   lambda: {"got": rows(np.abs(lib.get(
                       "sleplet.functions", "Ridgelets")(
                           L, B=B, j_min=j0, spin=s).wavelets))})


def coefficient_sets(L, B, j0, smoothing):
    """Each set is the convolution of the function with its wavelet."""
    f = "sleplet.functions"
    for c in ("Earth", "SouthAmerica", "Africa"):
        name = f"AxisymmetricWaveletCoefficients{c}"

        def go(name=name):
            h = lib.get(f, name)(L, B=B, j_min=j0, smoothing=smoothing)
            return {"got": rows(h.wavelet_coefficients)}
        g = np.array(lib.get(f, c)(L, smoothing=smoothing).coefficients)
        k = methods("create_kappas")(L, B, j0)
        _, ell = root(L)
        yield attempt({"kind": "sets", "function": name, "L": L, "B": B, "j0": j0,
                       "want": rows(k[:, ell] * g), "tol": TOL}, go)


def slepian_coefficient_sets(L, B, j0, smoothing, c):
    f = "sleplet.functions"
    name = f"SlepianWaveletCoefficients{c}"
    reg = lib.get("sleplet.slepian", "Region")(
        mask_name={"SouthAmerica": "south_america", "Africa": "africa"}[c])
    s = lib.get(f, f"Slepian{c}")(L, region=reg, smoothing=smoothing)
    g, N = np.array(s.coefficients), s.slepian.N
    k = methods("create_kappas")(L * L, B, j0)
    want = k[:, :N] * g[:N].conj()
    last = max(j for j in range(len(k)) if k[j, :N].any())
    want = want[:last + 1]

    def make(**kw):
        return lib.get(f, name)(L, region=reg, smoothing=smoothing, **kw)
    yield attempt({"kind": "sets", "function": name, "L": L, "B": B, "j0": j0,
                   "want": rows(want), "tol": TOL}, lambda: {
                       "got": rows(make(B=B, j_min=j0).wavelet_coefficients[:last + 1])})
    for j in [None, *range(last)]:
        kw = {} if j is None else {"j": j}

        def go(kw=kw):
            h = make(B=B, j_min=j0, **kw)
            return {"got": fixed(h.coefficients), "sets": rows(h.wavelet_coefficients)}
        yield attempt({"kind": "selection", "function": name, "n": L * L, "B": B,
                       "j0": j0, "j": -1 if j is None else j, "tol": TOL}, go)


def mesh_functions(k, B, j0):
    m = lib.get("sleplet.meshes", "Mesh")("cube", number_basis_functions=k)
    W = lib.get("sleplet.meshes", "MeshSlepianWavelets")
    C = lib.get("sleplet.meshes", "MeshSlepianWaveletCoefficients")
    field = lib.get("sleplet.meshes", "MeshSlepianField")(m)
    yield tiling("MeshSlepianWavelets", k, B, j0,
                 lambda: W(m, B=B, j_min=j0).wavelets)
    yield from selections("MeshSlepianWavelets", lambda **kw: W(m, **kw), k, B, j0,
                          "wavelets")
    kap = methods("create_kappas")(k, B, j0)
    N = field.mesh_slepian.N
    last = max(j for j in range(len(kap)) if kap[j, :N].any())
    want = (kap[:, :N] * np.conj(field.coefficients[:N]))[:last + 1]
    yield attempt({"kind": "sets", "function": "MeshSlepianWaveletCoefficients", "n": k,
                   "B": B, "j0": j0, "want": rows(want), "tol": TOL}, lambda: {
                       "got": rows(C(m, B=B, j_min=j0).wavelet_coefficients[:last + 1])})
    for j in [None, *range(last)]:
        kw = {} if j is None else {"j": j}

        def go(kw=kw):
            h = C(m, B=B, j_min=j0, **kw)
            return {"got": fixed(h.coefficients), "sets": rows(h.wavelet_coefficients)}
        yield attempt({"kind": "selection", "function": "MeshSlepianWaveletCoefficients",
                       "n": k, "B": B, "j0": j0, "j": -1 if j is None else j,
                       "tol": TOL}, go)


def non_zero(nrng, rng):
    w, a = gauss(nrng, 6, 4), unit(rng)
    w[nrng.uniform(size=6) < 0.4] = 0
    w[1] = [0, 0, 0, 1j]
    if rng.random() < 0.3:
        w = w.real
    shape, axis = rng.choice([((6, 4), 1), ((6, 2, 2), (1, 2)), ((6, 1, 4), (1, 2))])
    return attempt({"kind": "non_zero", "rows": [ints(r) for r in w]}, lambda: {
        "got": [ints(r) for r in (methods("find_non_zero_wavelet_coefficients")(
            (w * a).reshape(shape), axis=axis) / a).reshape(-1, 4)]})


def continents(L):
    """Masks of both continents, for the functions and for the Slepian regions."""
    rng = np.random.default_rng(3)
    for name in ("south_america", "africa"):
        for R in (L, 2 * L):
            sphere.save_mask(name, sphere.blob_mask(R, rng))


def put_earth(L=24, seed=5):
    """Published coefficients are of a real field."""
    import scipy.io as sio

    rng = np.random.default_rng(seed)
    flm = (rng.standard_normal(L * L) + 1j * rng.standard_normal(L * L)) / 2
    for e in range(L):
        flm[e * e + e] = flm[e * e + e].real
    sio.savemat(store.data_dir() / "EGM2008_Topography_flms_L2190.mat",
                {"flm": flm[:, None]})
    return flm


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    small = range(1, 13) if ctx.quick else range(1, 26)
    cases = ctx.cases("WaveletCases", cfg(small, (2, 3, 4, 5), emit="Emit"))
    big = (16, 25, 27, 36, 64, 100) if ctx.quick else (16, 25, 27, 36, 49, 64, 81, 100, 125, 144, 169, 256, 289)
    cases += ctx.cases("WaveletCases", cfg(big, (2, 3, 7), emit="Emit"))
    ctx.model("WaveletCases", cfg((9, 10), (4, 7), drop="TRUE"), expect_violation=True)
    store.use_dir(ctx.scratch / "d")
    events, n = [], 1 if ctx.quick else 10
    reg = None
    with ctx.unit("regions"):
        reg = lib.get("sleplet.slepian", "Region")(theta_max=store.rad(70))
    with ctx.unit("tilings"):
        events += tilings(cases)
    with ctx.unit("wavelet functions"):
        for L in (2, 3, 5) if ctx.quick else range(2, 9):
            for B in (2, 3):
                for j0 in range(jmax(B, L, 0) + 1):
                    events += wavelet_functions(L, B, j0, reg)
    with ctx.unit("axisymmetric transforms"):
        for _ in range(40 * n):
            events += axisymmetric(rng.randrange(1, 6), rng.randrange(1, 5), nrng, rng)
        for L in (7, 9, 11, 13):
            events += axisymmetric(L, rng.randrange(1, 3), nrng, rng)
    with ctx.unit("Slepian transforms"):
        for _ in range(80 * n):
            events += slepian(rng.randrange(1, 12), rng.randrange(1, 6), nrng, rng)
        for d in (20, 40, 64, 121, 200, 289):
            events += slepian(d, rng.randrange(1, 8), nrng, rng)
    with ctx.unit("round trips"):
        for c in lib.sample(rng, cases, 250 * n):
            events += roundtrips(c, nrng, rng)
    with ctx.unit("selections"):
        put_earth()
        for L, B, j0 in ((3, 2, 0), (3, 3, 0), (5, 2, 1), (4, 3, 1))[:3 if ctx.quick else 4]:
            continents(L)
            events += all_selections(L, B, j0, reg)
            for s in (0, 1, 2, 3):
                events.append(ridgelet_sets(L, B, j0, s))
            for smoothing in (None, 2):
                events += coefficient_sets(L, B, j0, smoothing)
    with ctx.unit("Slepian coefficients"):
        for L in (3,) if ctx.quick else (3, 4):
            continents(L)
            for c in ("SouthAmerica", "Africa"):
                for B, j0 in ((2, 0), (2, 1), (3, 0)):
                    events += slepian_coefficient_sets(L, B, j0, rng.choice([None, 3]), c)
    with ctx.unit("meshes"):
        for k, B, j0 in ((8, 2, 0), (12, 3, 1), (10, 2, 1)) if ctx.quick else [
            (k, B, j0) for k in (6, 8, 12, 17, 30) for B in (2, 3) for j0 in (0, 1, 2)]:
            events += mesh_functions(k, B, j0)
    with ctx.unit("non-zero sets"):
        for _ in range(20):
            events.append(non_zero(nrng, rng))
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("WaveletTrace", events)
