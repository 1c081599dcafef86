"""P24: changes of the resolution."""

import functions
import lib
import numpy as np
import sphere
import store
from drivers.p08 import attempt, unit
from drivers.p18 import coefficients, resolution, values

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE = 10**4
PARTS = {"real": np.real, "imag": np.imag, "abs": np.abs, "sum": lambda z: z.real + z.imag}


def cfg(grids, dens, *, invariants, front="FALSE", straight="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Front = {front}
Straight = {straight}
Grids = {{{", ".join(map(str, grids))}}}
Dens = {{{", ".join(map(str, dens))}}}
Emitting = {emit}
INVARIANTS {invariants} Emit
CHECK_DEADLOCK FALSE
"""


ALL = ("SameSignal SameCoefficients PolesConstant Nested PolesShared Coincident Finer "
       "Nearest Periodic")


def boosted(flm, L, R, *, reality=False, spin=0):
    return lib.get("sleplet.harmonic_methods", "invert_flm_boosted")(
        flm, L, R, reality=reality, spin=spin)


def field(f, L, R, *, reality=False, spin=0, upsample=True):
    return lib.get("sleplet.plot_methods", "_boost_field")(
        f, L, R, reality=reality, spin=spin, upsample=upsample)


def fixed(z, s=1.0):
    return lib.qcv(np.asarray(z, dtype=complex).ravel(), SCALE * s)


def exact(case, via):
    L, R = case["L"], case["R"]
    c = np.array([complex(*x) for x in case["c"]])
    four = np.pad(c, (0, 4 - len(c)))
    k = np.sqrt(4 * np.pi)
    flm = np.array([four[0] * k, four[3] * np.sqrt(2 / 3) * k, four[1] * k / np.sqrt(3),
                    -four[2] * np.sqrt(2 / 3) * k])[:L * L]

    def go():
        if via == "field":
            got = field(values(flm, L, L), L, R)
        else:
            got = boosted(flm, L, R)
        return {"got": [lib.qcv(row, 10**4) for row in np.asarray(got, complex)]}
    return attempt({"kind": "exact", "via": via, "L": L, "R": R, "c": case["c"],
                    "unit": 10**4, "tol": 8}, go)


def boost(via, L, R, nrng, rng, *, reality, spin=0, n=150):
    import pyssht as ssht

    c = coefficients(nrng, L, reality, spin) * unit(rng)
    want = values(c, L, R, spin)
    coarse = values(c, L, L, spin)
    s = 1 / (max(np.abs(want).max(), np.abs(c).max()) or 1)
    at = [(rng.randrange(R + 1), rng.randrange(2 * R)) for _ in range(n)]
    at += [(0, 0), (R, 0), (0, 2 * R - 1), (R, R)]
    g = int(np.gcd(L, R))
    both = [((i * L // g, j * L // g), (i * R // g, j * R // g))
            for i in range(g + 1) for j in range(2 * g)]
    both = lib.sample(rng, both, 40)

    def go():
        if via == "field":
            f = coarse.real.copy() if reality else coarse.copy()
            old = f.copy()
            got = field(f, L, R, reality=reality, spin=spin)
            kept = np.array_equal(f, old)
        else:
            flm = c.copy()
            got = boosted(flm, L, R, reality=reality, spin=spin)
            kept = np.array_equal(flm, c)
        got = np.asarray(got)
        out = {"shape": list(got.shape), "kept": bool(kept)}
        if got.shape != (R + 1, 2 * R):
            return out | {"got": [], "back": [], "fine": []}
        back = ssht.forward(np.asarray(got, complex), R, Method="MWSS", Spin=spin)
        return out | {"got": fixed([got[x] for x in at], s), "back": fixed(back, s),
                      "fine": fixed([got[y] for _, y in both], s)}
    return attempt({"kind": "boost", "via": via, "L": L, "R": R, "reality": reality,
                    "spin": spin, "want": fixed([want[x] for x in at], s),
                    "coarse": fixed([coarse[x] for x, _ in both], s), "c": fixed(c, s),
                    "places": [[list(x), list(y)] for x, y in both], "tol": 3}, go)


def same(L, R, nrng, *, reality, spin):
    f = nrng.standard_normal((L + 1, 2 * L)) + (0 if reality else 1j)

    def go():
        got = field(f.copy(), L, R, reality=reality, spin=spin, upsample=False)
        return {"same": bool(np.array_equal(got, f))}
    return attempt({"kind": "same", "L": L, "R": R, "reality": reality, "spin": spin}, go)


def resolutions(top):
    fn = lib.get("sleplet.plot_methods", "calc_plot_resolution")
    return attempt({"kind": "resolutions", "top": top},
                   lambda: {"got": [int(fn(L)) for L in range(1, top + 1)]})


def nearest(L, a, b):
    def go():
        alpha, beta = lib.get("sleplet.plot_methods", "_calc_nearest_grid_point")(
            L, a[0] / a[1], b[0] / b[1])
        j, i = float(alpha) * L / np.pi, float(beta) * L / np.pi
        return {"got": [round(j), round(i)],
                "off": lib.qv([j - round(j), i - round(i)], 10**6)}
    return attempt({"kind": "nearest", "L": L, "alpha": a, "beta": b}, go)


def amplitude(name, make, L, rng):
    part = rng.choice(list(PARTS))
    upsample = rng.random() < 0.7
    try:
        f = make()
    except (IndexError, ValueError):
        return None
    R = resolution(L) if upsample else L
    c = np.asarray(f.coefficients)
    if hasattr(f, "slepian"):
        n = int(f.slepian.N)
        c = c[:n] @ np.asarray(f.slepian.eigenvectors)[:n]
    z = values(c, L, R, f.spin)
    if f.reality:
        z = z.real + 0j
    want = PARTS[part](z)
    s = 1 / max(np.abs(z).max(), 1e-9)
    want = np.abs(want).max()

    def go():
        got = lib.get("sleplet.plot_methods", "find_max_amplitude")(
            f, plot_type=part, upsample=upsample)
        return {"got": lib.q(got, SCALE * s)}
    return attempt({"kind": "amplitude", "function": name, "L": L, "part": part,
                    "upsample": upsample, "want": lib.q(want, SCALE * s), "tol": 5}, go)


def amplitudes(rng, each):
    functions.put_data()
    for L in (3, 4):
        functions.continents(L)
    names = [(n, functions.harmonic) for n in functions.HARMONIC]
    names += [(n, functions.slepian) for n in functions.SLEPIAN]
    for name, fn in names:
        for _ in range(each):
            L = rng.choice([3, 4])
            kw = fn(name, L, rng)
            e = amplitude(name, lambda name=name, L=L, kw=kw: functions.make(name, L, **kw),
                          L, rng)
            if e:
                yield e


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    grids, dens = (range(1, 9), range(1, 8)) if ctx.quick else (range(1, 17), range(1, 12))
    cases = ctx.cases("ResolutionCases", cfg(grids, dens, invariants=ALL, emit="TRUE"))
    ctx.model("ResolutionCases", cfg((2, 3), (2, 3), invariants="SameSignal", front="TRUE"),
              expect_violation=True)
    ctx.model("ResolutionCases", cfg((2, 3), (4, 5), invariants="Nearest", straight="TRUE"),
              expect_violation=True)
    store.use_dir(ctx.scratch / "d")
    store.data_dir().mkdir(parents=True, exist_ok=True)
    by = {k: [c for c in cases if c["kind"] == k] for k in ("signal", "grid", "angle")}
    events = []
    with ctx.unit("exact"):
        for via in ("coefficients", "field"):
            for c in lib.sample(rng, by["signal"], 60 if ctx.quick else 250):
                events.append(exact(c, via))
    with ctx.unit("boost"):
        for c in by["grid"]:
            L, R = c["L"], c["R"]
            for via in ("coefficients", "field"):
                kinds = [(True, 0), (False, 0), (False, rng.choice([-2, -1, 1, 2, 3]))]
                if ctx.quick:
                    kinds = rng.sample(kinds, 2)
                for reality, spin in kinds:
                    if abs(spin) < L:
                        events.append(boost(via, L, R, nrng, rng, reality=reality,
                                            spin=spin, n=40))
        for L in (1, 2, 3, 5, 9, 17) if ctx.quick else (*range(1, 13), 16, 17, 24):
            for via in ("coefficients", "field"):
                events.append(boost(via, L, resolution(L), nrng, rng,
                                    reality=rng.random() < 0.5))
    with ctx.unit("same"):
        for L in (1, 2, 5):
            for reality, spin in ((True, 0), (False, 0), (False, 1)):
                events.append(same(L, 3 * L, nrng, reality=reality, spin=spin))
    with ctx.unit("resolutions"):
        events.append(resolutions(1300))
    with ctx.unit("nearest"):
        for c in by["angle"]:
            L, num, den = c["L"], c["num"], c["den"]
            turn = rng.choice([0, 0, -2, 2]) * den
            d2 = rng.choice(list(dens))
            events.append(nearest(L, [num + turn, den], [rng.randrange(d2 + 1), d2]))
        for _ in range(300 if ctx.quick else 3000):
            L, d1, d2 = rng.randrange(1, 60), rng.randrange(1, 400), rng.randrange(1, 400)
            events.append(nearest(L, [rng.randrange(2 * d1 + 1), d1],
                                  [rng.randrange(d2 + 1), d2]))
    with ctx.unit("amplitude"):
        events += amplitudes(rng, 2 if ctx.quick else 10)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("ResolutionTrace", events)
