"""P23: the Earth and the microwave background."""

import contextlib

import functions
import lib
import numpy as np
import sphere
import store
from drivers.p08 import attempt
from drivers.p13 import harmonic_parts
from drivers.p17 import turned

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE = 1000
# the angles which turn each continent to the north pole
ANGLES = {"africa": (44, 87, 341), "south_america": (54, 108, 63)}
CLASS = {"africa": "Africa", "south_america": "SouthAmerica"}
EARTH = "EGM2008_Topography_flms_L2190.mat"
SKY = "wmap_lcdm_pl_model_wmap7baoh0.mat"


def cfg(size=2, *, invariants, unsigned="FALSE", goon="FALSE", smoothed="FALSE",
        onekey="FALSE", steps=2, emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Size = {size}
Unsigned = {unsigned}
GoOn = {goon}
FromSmoothed = {smoothed}
OneKey = {onekey}
Steps = {steps}
Emitting = {emit}
INVARIANTS {invariants} Emit
CHECK_DEADLOCK FALSE
"""


ALL = ("Declared Real Prefix NoJunk LowIsZero SkyReal Fixed Follows "
       "SameMask AsDefined Elsewhere")


def cplx(v):
    return np.array([complex(*x) for x in v], dtype=complex)


def fixed(z, scale=SCALE):
    return lib.qcv(np.asarray(z, dtype=complex).ravel(), scale)


def publish(flm=None, cl=None):
    import scipy.io as sio

    if flm is not None:
        sio.savemat(store.data_dir() / EARTH, {"flm": np.asarray(flm)[:, None]})
    if cl is not None:
        sio.savemat(store.data_dir() / SKY, {"cl": np.asarray(cl, float)[:, None]})


def make(name, L, **kw):
    return np.asarray(functions.make(name, L, **kw).coefficients).copy()


def mirrored(p, L, w=None):
    """As declared: the conjugates, completed and smoothed."""
    out = np.zeros(L * L, complex)
    for ell in range(L):
        for m in range(ell + 1):
            c = np.conj(p[ell * ell + ell + m])
            out[ell * ell + ell + m] = c
            if m:
                out[ell * ell + ell - m] = (-1) ** m * np.conj(c)
    return out if w is None else out * np.repeat(w, 2 * np.arange(L) + 1)


def gaussian(L, smoothing):
    return np.exp(-(np.arange(L) * np.pi / (smoothing * L)) ** 2)


def random_earth(nrng, n):
    """Integers, the negative orders of which mean nothing."""
    p = nrng.integers(-9, 10, n * n) + 1j * nrng.integers(-9, 10, n * n)
    for ell in range(n):
        p[ell * ell + ell] = p[ell * ell + ell].real
    return p.astype(complex)


def earth(p, L):
    publish(flm=p)

    def go():
        got = make("Earth", L)
        return {"got": fixed(got, 1)}
    return attempt({"kind": "earth", "p": fixed(p, 1), "L": L}, go)


def smoothed(p, L, s):
    publish(flm=p)
    w, unit = gaussian(L, s), 10**6

    def go():
        return {"got": fixed(make("Earth", L, smoothing=s))}
    return attempt({"kind": "smoothed", "p": fixed(p, SCALE), "L": L, "smoothing": s,
                    "w": [round(x * 10**4) for x in w], "unit": 10**4,
                    "tol": 2}, go)


def sky(cl, L, rng, nrng):
    publish(cl=cl)
    event = {"kind": "sky", "L": L}

    def go():
        got = make("Wmap", L)
        np.random.seed(rng.randrange(99))
        np.random.default_rng(rng.randrange(99)).standard_normal(3)
        more = make("Wmap", L + rng.randrange(3))
        return {"got": fixed(got), "more": fixed(more), "again": fixed(make("Wmap", L))}
    return attempt(event, go)


def spectrum(cl, L, degree, factor):
    def go():
        publish(cl=cl)
        plain = make("Wmap", L)
        other = np.array(cl, float)
        other[degree - 2] *= factor**2
        publish(cl=other)
        return {"plain": fixed(plain, 100), "got": fixed(make("Wmap", L), 100)}
    return attempt({"kind": "spectrum", "L": L, "degree": degree, "factor": factor,
                    "tol": 1}, go)


def realisation(cl, L):
    """The numbers of the seeded generator, in order of degree and order."""
    publish(cl=cl)
    z = np.random.default_rng(30).standard_normal(L * L)
    at = 0
    for ell in range(2, L):
        z[at + 1:at + 2 * ell + 1] /= np.sqrt(2)
        at += 2 * ell + 1
    s = [np.sqrt(2 * np.pi * cl[ell - 2] / (ell * (ell + 1))) for ell in range(2, L)]
    return attempt({"kind": "realisation", "L": L, "z": lib.qv(z, 10**4), "unit": 10**4,
                    "s": lib.qv(s, SCALE), "tol": 6},
                   lambda: {"got": fixed(make("Wmap", L))})


def level(L, nrng):
    """Mean squares, of each degree, of the real and of the imaginary parts."""
    cl = nrng.uniform(1, 1000, L)
    publish(cl=cl)

    def go():
        c = make("Wmap", L)
        unit, ratio = [], []
        re, im = [], []
        for ell in range(2, L):
            v = 2 * np.pi * cl[ell - 2] / (ell * (ell + 1))
            row = c[ell * ell:(ell + 1) ** 2]
            ratio.append((np.abs(row) ** 2).mean() / v)
            unit.append(np.sqrt(2 / (2 * ell + 1)))
            re += (row[ell + 1:].real ** 2 / (v / 2)).tolist()
            im += (row[ell + 1:].imag ** 2 / (v / 2)).tolist()
        zero = [c[ell * ell + ell].real ** 2 * ell * (ell + 1) / (2 * np.pi * cl[ell - 2])
                for ell in range(2, L)]
        for x in (re, im, zero):
            ratio.append(np.mean(x))
            unit.append(np.sqrt(2 / len(x)))
        # the degrees apart, since far fewer numbers give their variance
        return {"power": lib.qv(ratio, 1000),
                "slack": [round(6000 * u + 3000 * u * u) for u in unit]}
    return attempt({"kind": "level", "L": L}, go)


def heights(p, L, name, s=None):
    """The turned Earth at the samples, without the transforms of the package."""
    c = turned(mirrored(p, L, None if s is None else gaussian(L, s)), L,
               *np.deg2rad(ANGLES[name]))
    t, q = sphere.mwss_grid(L)
    T, P = (x.ravel() for x in np.meshgrid(t, q, indexing="ij"))
    return (c @ sphere.ylm_matrix(L, T, P)).real


def land(case, i, bands, ctx, nrng, rng, *, flat=False):
    """A history of uses of the continents, maybe of an Earth without any height."""
    d = ctx.scratch / f"land{i}"
    store.use_dir(d)
    p = random_earth(nrng, max(bands) + 1) / 4 * (not flat)
    publish(flm=p)
    given = {}
    for name, k in case["given"]:
        L = bands[k - 1]
        given[name, L] = nrng.random((L + 1, 2 * L)) < 0.5
        sphere.save_mask(name, given[name, L])
    keys, masks, failed = [], [], None
    for o in case["ops"]:
        name, L = o["name"], bands[o["L"] - 1]
        s = rng.choice([1, 2, 3, 5]) if o["smooth"] else None
        plain = heights(p, L, name)
        t, _ = sphere.mwss_grid(L)
        event = {"kind": "continent", "name": name, "L": L, "op": o["op"], "smoothing": s or 0,
                 "given": (name, L) in given, "near": -1 if flat else 1, "unit": 10**4, "tol": 12,
                 "plain": lib.qv(plain, SCALE), "field": lib.qv(plain if s is None else heights(p, L, name, s), SCALE),
                 "angles": [round(1000 * x) for x in np.repeat(np.rad2deg(t), 2 * L)],
                 "history": [x["op"] for x in case["ops"]]}

        def go(o=o, name=name, L=L, s=s, plain=plain):
            if o["op"] == "region":
                reg = lib.get("sleplet.slepian", "Region")(mask_name=name)
                m = lib.get("sleplet._mask_methods", "create_mask_region")(L, reg)
                m = np.asarray(m, bool)
                if m.shape != (L + 1, 2 * L):
                    raise ValueError("shape of the mask")
                out = {"mask": m.ravel().tolist()}
                if (name, L) in given and not np.array_equal(m, given[name, L]):
                    raise ValueError("not the mask which was given")
                keys.append(f"{name}{L}")
                masks.append("".join(map(str, m.ravel().astype(int))))
                return out
            got = make(CLASS[name], L, smoothing=s)
            if (name, L) in given:
                m = given[name, L].ravel()
            else:
                m = (np.repeat(np.rad2deg(t), 2 * L)
                     <= (41 if name == "africa" else 40)) & (plain >= 0)
                f = sphere_file(name, L)
                m = m if f is None else f.ravel()
            return {"got": fixed(got), "mask": m.tolist(),
                    "parts": [fixed(x, 10**4) for x in harmonic_parts(L)]}
        e = attempt(event, go)
        yield e
        failed = failed or (e if e["outcome"] != "ok" else None)
    yield {"kind": "masks", "outcome": "ok", "keys": keys, "masks": masks}


def sphere_file(name, L):
    """The mask which the package kept, if it did."""
    f = store.data_dir() / f"slepian_masks_{name}_L{L}.npy"
    with contextlib.suppress(Exception):
        m = np.load(f)
        return np.asarray(m, bool) if m.shape == (L + 1, 2 * L) else None
    return None


def slepian(name, L, s, ctx, nrng):
    store.use_dir(ctx.scratch / f"slepian-{name}{L}{s}")
    p = random_earth(nrng, L + 1) / 4
    publish(flm=p)
    functions.continents(L)

    def go():
        reg = lib.get("sleplet.slepian", "Region")(mask_name=name)
        f = functions.make("Slepian" + CLASS[name], L, region=reg, smoothing=s)
        got = np.asarray(f.coefficients)
        basis = np.asarray(f.slepian.eigenvectors)
        plain = make(CLASS[name], L, smoothing=s)
        return {"got": fixed(got), "N": int(f.slepian.N), "land": fixed(plain),
                "basis": [fixed(b, 10**4) for b in basis[:int(f.slepian.N)]]}
    return attempt({"kind": "slepian", "name": name, "L": L, "smoothing": s or 0,
                    "unit": 10**4, "tol": 10}, go)


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    size = 3 if not ctx.quick else 2
    cases = ctx.cases("EarthDataCases", cfg(size, invariants=ALL, steps=3, emit="TRUE"))
    for inv, broken in (("Declared", "unsigned"), ("Fixed", "goon"), ("AsDefined", "smoothed"),
                        ("AsDefined", "onekey")):
        ctx.model("EarthDataCases", cfg(invariants=inv, **{broken: "TRUE"}),
                  expect_violation=True)
    lands = [c for c in cases if c["kind"] == "land"]
    cases = [c for c in cases if c["kind"] == "earth"]
    store.use_dir(ctx.scratch / "d")
    store.data_dir().mkdir(parents=True, exist_ok=True)
    events = []
    with ctx.unit("earth"):
        for c in lib.sample(rng, [c for c in cases if not c["weigh"]], 60 if ctx.quick else 600):
            events.append(earth(cplx(c["p"]), c["L"]))
        for _ in range(20 if ctx.quick else 200):
            n = rng.randrange(1, 14)
            events.append(earth(random_earth(nrng, n), rng.randrange(1, n + 1)))
    with ctx.unit("smoothing"):
        for s in (1, 2, 3, 4, 7, 20):
            for L in lib.sample(rng, range(1, 13), 5 if ctx.quick else 12):
                events.append(smoothed(random_earth(nrng, L + rng.randrange(3)), L, s))
    with ctx.unit("background"):
        for L in range(1, 13 if ctx.quick else 25):
            cl = nrng.uniform(0.1, 5, L + 4) * np.arange(2, L + 6) ** 2
            events.append(sky(cl, L, rng, nrng))
            events.append(realisation(cl, L))
            for d in lib.sample(rng, range(2, L), 2):
                events.append(spectrum(cl, L, d, rng.choice([2, 3])))
        events.append(level(48 if ctx.quick else 100, nrng))
    with ctx.unit("continents"):
        by = {}
        for c in lands:
            by.setdefault((len(c["given"]), tuple(
                (o["op"], o["smooth"]) for o in c["ops"])), []).append(c)
        i = 0
        for _, cs in sorted(by.items()):
            for c in lib.sample(rng, cs, 1 if ctx.quick else 4):
                i += 1
                events += land(c, i, rng.sample([1, 2, 3, 4, 5], 2), ctx, nrng, rng)
        for L in (13, 22, 23):      # samples just within and just beyond the limits
            for name in CLASS:
                i += 1
                o = {"name": name, "L": 1, "op": "region", "smooth": False}
                events += land({"given": [], "ops": [o]}, i, [L], ctx, nrng, rng)
        for name in CLASS:          # nothing is below sea level
            i += 1
            o = [{"name": name, "L": k, "op": "region", "smooth": False} for k in (1, 2)]
            events += land({"given": [], "ops": o}, i, rng.sample(range(3, 9), 2), ctx, nrng,
                           rng, flat=True)
    with ctx.unit("slepian"):
        for name in CLASS:
            for s in (None, 2):
                events.append(slepian(name, rng.choice([3, 4]), s, ctx, nrng))
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("EarthDataTrace", events)
