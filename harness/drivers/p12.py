"""P12: noise."""

import functions
import lib
import numpy as np
import store
from drivers.p08 import attempt, gauss, ints, unit

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**5, 6
RATIOS = (-20.0, -7.5, -3.0, 0.0, 1.0, 2.5, 10.0, 20.0)


def cfg(steps, kinds=("harmonic",), cont="FALSE", emit="FALSE"):
    ks = ", ".join(f'"{k}"' for k in kinds)
    return f"""SPECIFICATION Spec
CONSTANTS Kinds = {{{ks}}}
Signals <- Ones
Steps = {steps}
Continue = {cont}
Emitting = {emit}
INVARIANTS Exact Reproducible Unchanged Tenfold Emit
CHECK_DEADLOCK FALSE
"""


def fixed(z):
    return lib.qcv(np.asarray(z, dtype=complex).ravel(), SCALE)


def noise_module(name):
    return lib.get("sleplet.noise", name)


class Units:
    """Unit numbers, each from a process of its own."""

    def __init__(self, ctx):
        self.ctx, self.of = ctx, {}

    def ask(self, key, fn):
        if key not in self.of:
            got = self.ctx.forked(fn)
            if got[0] == "skip":
                raise lib.Skip(got[1])
            if got[0] != "ok":
                raise RuntimeError(f"no noise for {key}: {got[1:]}")
            self.of[key] = got[1]
        return self.of[key]

    def sphere(self, L):
        return self.ask(("sphere", L), lambda: np.array(
            functions.make("Identity", L, noise=0.0).coefficients) - 1)

    def mesh(self, k):
        def go():
            m = functions.mesh(k)
            kept = np.array(functions.on_mesh("MeshBasisFunctions", m).coefficients)
            h = functions.on_mesh("MeshBasisFunctions", m, noise=0.0)
            sigma = np.sqrt((kept**2).sum() / k)
            return (np.array(h.coefficients) - kept) / sigma
        return self.ask(("mesh", k), go)


def kept(h):
    """The coefficients without noise, which the package has under a private name."""
    if not hasattr(h, "_unnoised_coefficients"):
        raise lib.Skip("no coefficients without noise")
    return h._unnoised_coefficients


def level(signal, ratio, n=None):
    p = (np.abs(signal) ** 2).sum()
    return np.sqrt(10 ** (-ratio / 10) * p / (n or len(signal)))


def decibels(signal, noise):
    with np.errstate(all="ignore"):
        p, q = (np.abs(signal) ** 2).sum(), (np.abs(noise) ** 2).sum()
        return 10 * np.log10(p / q)


def squares(nrng, n):
    """Integers whose mean power is the square of an integer."""
    level = int(nrng.integers(1, 4))
    if nrng.uniform() < 0.3:
        v = np.zeros(n, dtype=complex)
        if int(np.sqrt(n)) ** 2 == n:
            v[nrng.integers(n)] = level * np.sqrt(n)
            return v
    return level * np.array([1, 1j, -1, -1j])[nrng.integers(4, size=n)]


def exact(units, nrng, rng, L):
    v = squares(nrng, L * L)
    ratio, a = rng.choice([-20, 0, 20]), unit(rng)
    yield attempt({"kind": "exact", "harmonic": True, "L": L, "signal": ints(v),
                   "ratio": ratio, "unit": 100, "z": fixed(units.sphere(L)), "tol": 10},
                  lambda: {"got": fixed(noise_module("_create_noise")(L, v * a, ratio) / a)})


def exact_mesh(units, nrng, rng, k):
    v = squares(nrng, k).real if rng.random() < 0.5 else squares(nrng, k)
    ratio, a = rng.choice([-20, 0, 20]), unit(rng)
    if (np.abs(v) ** 2).sum() == 0 or int(round((np.abs(v)**2).sum() / k)) * k != int(
            round((np.abs(v) ** 2).sum())) or not _square((np.abs(v) ** 2).sum() / k):
        v = np.full(k, 2.0)
    yield attempt({"kind": "exact", "harmonic": False, "n": k, "signal": ints(v),
                   "ratio": ratio, "unit": 100, "z": fixed(units.mesh(k)), "tol": 10},
                  lambda: {"got": fixed(noise_module("_create_mesh_noise")(v * a, ratio) / a)})


def _square(x):
    return abs(np.sqrt(x) - round(np.sqrt(x))) < 1e-9


def general(units, nrng, rng, L):
    v = gauss(nrng, L * L) * rng.choice([1, 0.1, 0.5])
    if not np.abs(v).sum():
        v[0] = 1
    ratio, a = rng.choice(RATIOS), unit(rng)
    den = rng.choice([None, L * L + 3, 7])
    want = level(v, ratio) * units.sphere(L)

    def go():
        got = noise_module("_create_noise")(L, v * a, ratio)
        kw = {} if den is None else {"denominator": den}
        return {"got": fixed(got / a), "ratio": lib.q(
            noise_module("compute_snr")(v * a, got, "Harmonic"), 1000),
            "sigma": lib.q(noise_module("compute_sigma_noise")(
                v * a, ratio, **kw) / a, SCALE)}
    return attempt({"kind": "general", "L": L, "snr": ratio, "want": fixed(want),
                    "want_ratio": lib.q(decibels(v, want), 1000),
                    "want_sigma": lib.q(level(v, ratio, den), SCALE), "tol": TOL}, go)


def sphere_units(units, L):
    event = {"kind": "units", "n": L * L}

    def go():
        z = units.sphere(L)
        ell = np.sqrt(np.arange(L * L)).astype(int)
        m = np.arange(L * L) - ell * ell - ell
        groups = [z[m == 0].real, z[m > 0].real, z[m > 0].imag,
                  z[(m > 0) & (ell < L // 3)].real, z[(m > 0) & (ell > 2 * L // 3)].imag,
                  z[(m > 0) & (m < 4)].real, z[m > L // 2].real]
        drawn = np.concatenate([z[m >= 0].real, z[m > 0].imag])
        return {"groups": [lib.q((g**2).mean(), 1000) for g in groups],
                "drawn": len(drawn), "distinct": len(np.unique(drawn))}
    out = attempt(event, go)
    return out | {"expected": [1000, 500, 500, 500, 500, 500, 500], "slack": 300}


def mesh_units(k=20000):
    def go():
        z = noise_module("_create_mesh_noise")(np.ones(k), 0.0)
        half = [z, z[:k // 2], z[k // 2:], z[::2]]
        return {"groups": [lib.q((g**2).mean(), 1000) for g in half],
                "drawn": k, "distinct": len(np.unique(z))}
    return attempt({"kind": "units", "n": k}, go) | {"expected": [1000] * 4, "slack": 100}


def one_function(kind, name, make, ratio, noise_of, ctx):
    """A function with noise, compared with that without."""
    base = {"function": name, "space": kind}
    if ratio is None:
        def go():
            h = make()
            return {"got": fixed(h.coefficients), "no_snr": h.snr is None,
                    "no_kept": kept(h) is None}
        plain = np.array(make(noise=None).coefficients)
        return attempt({"kind": "no_noise", **base, "plain": fixed(plain)}, go)
    plain = np.array(make().coefficients)
    top = np.abs(plain).max() or 1.0
    want = noise_of(plain, ratio)
    top = max(top, np.abs(want).max(initial=0))

    def rescaled(z):
        return fixed(np.asarray(z) / top)

    def go():
        h = make(noise=ratio)
        again = np.array(make(noise=ratio).coefficients)
        return {"got": rescaled(h.coefficients), "kept": rescaled(kept(h)),
                "snr": lib.q(h.snr, 1000), "again": rescaled(again)}
    return attempt({"kind": "function", **base, "noise": ratio, "plain": rescaled(plain),
                    "want": rescaled(want), "tol": TOL,
                    "want_snr": lib.q(decibels(plain, want), 1000)}, go)


def slepian_noise(units, L, s):
    def of(c, ratio):
        vec, n = np.asarray(s.eigenvectors)[:int(s.N)], int(s.N)
        flm = c[:n] @ vec
        out = np.zeros(len(c), dtype=complex)
        out[:n] = vec.conj() @ (level(flm, ratio) * units.sphere(L))
        return out
    return of


def mesh_slepian_noise(units, ms):
    def of(c, ratio):
        n = int(ms.N)
        s = np.asarray(ms.slepian_functions)[:n]
        u = c[:n].real @ s
        out = np.zeros(len(c), dtype=complex)
        out[:n] = s @ (level(u, ratio) * units.mesh(s.shape[1]))
        return out
    return of


def history(case, units, L, k, rng, ctx):
    """Functions of one process, as in a history of the specification."""
    np.random.seed(rng.randrange(1000))
    for step in case:
        ratio = None if step["ratio"] == 99 else float(step["ratio"] + rng.choice([0, 3, -5]))
        kind = step["kind"]
        if kind == "harmonic":
            name = rng.choice(functions.HARMONIC)
            kw = functions.harmonic(name, L, rng)
            yield one_function(
                kind, name, lambda name=name, kw=kw, **more: functions.make(
                    name, L, **kw, **more), ratio,
                lambda c, r: level(c, r) * units.sphere(L), ctx)
        elif kind == "slepian":
            name = rng.choice(functions.SLEPIAN)
            kw = functions.slepian(name, L, rng)
            s = lib.get("sleplet.slepian_methods", "choose_slepian_method")(
                L, kw["region"])
            yield one_function(
                kind, name, lambda name=name, kw=kw, **more: functions.make(
                    name, L, **kw, **more), ratio, slepian_noise(units, L, s), ctx)
        else:
            m = functions.mesh(k)
            names = (functions.MESH_HARMONIC if kind == "mesh"
                     else functions.MESH_SLEPIAN)
            name = rng.choice(names)
            kw = functions.mesh_function(name, k, rng)
            if kind == "mesh":
                def of(c, r):
                    return level(c, r) * units.mesh(k)
            else:
                of = mesh_slepian_noise(units, lib.get(
                    "sleplet.meshes", "MeshSlepian")(m))
            yield one_function(
                kind, name, lambda name=name, kw=kw, m=m, **more: functions.on_mesh(
                    name, m, **kw, **more), ratio, of, ctx)


def noise_functions(units, L, k):
    for snr in (-10.0, 0.0, 7.0):
        for smoothing in (None, 2):
            def earth(snr=snr, smoothing=smoothing):
                return functions.make("NoiseEarth", L, SNR=snr, smoothing=smoothing)
            plain = np.array(functions.make("Earth", L, smoothing=smoothing).coefficients)
            yield attempt({"kind": "noise_function", "function": "NoiseEarth", "SNR": snr,
                           "want": fixed(level(plain, snr) * units.sphere(L)),
                           "tol": TOL}, lambda: {"got": fixed(earth().coefficients)})
            for c in ("Africa", "SouthAmerica"):
                reg = functions.region(functions.continent(c))
                s = functions.make(f"Slepian{c}", L, region=reg, smoothing=smoothing)
                want = slepian_noise(units, L, s.slepian)(np.array(s.coefficients), snr)
                yield attempt(
                    {"kind": "noise_function", "function": f"SlepianNoise{c}", "SNR": snr,
                     "want": fixed(want), "tol": TOL},
                    lambda c=c, reg=reg: {"got": fixed(functions.make(
                        f"SlepianNoise{c}", L, region=reg, SNR=snr,
                        smoothing=smoothing).coefficients)})
        m = functions.mesh(k)
        f = functions.on_mesh("MeshField", m)
        yield attempt({"kind": "noise_function", "function": "MeshNoiseField", "SNR": snr,
                       "want": fixed(level(f.coefficients, snr) * units.mesh(k)),
                       "tol": TOL}, lambda: {"got": fixed(
                           functions.on_mesh("MeshNoiseField", m, SNR=snr).coefficients)})
        s = functions.on_mesh("MeshSlepianField", m, region=True)
        want = mesh_slepian_noise(units, s.mesh_slepian)(np.array(s.coefficients), snr)
        yield attempt({"kind": "noise_function", "function": "MeshSlepianNoiseField",
                       "SNR": snr, "want": fixed(want), "tol": TOL}, lambda: {"got": fixed(
                           functions.on_mesh(
                               "MeshSlepianNoiseField", m, SNR=snr).coefficients)})


def random_signals(rng, n):
    fn = lib.get("sleplet.harmonic_methods", "compute_random_signal")
    for _ in range(n):
        L, seed = rng.randrange(1, 12), rng.randrange(2**31)
        var = rng.choice([0.25, 1, 1.0, 3, 40.0, 1e-8])

        def go():
            one = np.random.default_rng(seed)
            x, y = fn(L, one, var_signal=var), fn(L, one, var_signal=var)
            z = fn(L, np.random.default_rng(seed), var_signal=var)
            w = fn(L, np.random.default_rng(seed), var_signal=1)
            parts = np.concatenate([np.real(x), np.imag(x)])
            return {"length": len(x), "again": bool(np.array_equal(x, z)),
                    "repeats": bool(np.isin(np.real(x), np.real(y)).any()),
                    "scaled": bool(np.allclose(x, np.sqrt(var) * w, rtol=1e-12, atol=0)),
                    "distinct": len(set(np.abs(parts).tolist()))}
        yield attempt({"kind": "random signal", "L": L}, go)

    def moments():
        x = fn(256, np.random.default_rng(rng.randrange(2**31)), var_signal=1)
        a, b = np.real(x), np.imag(x)
        return {"got": {k: int(round(1000 * v.mean())) for k, v in {
            "re": a, "im": b, "re2": a**2, "im2": b**2, "both": a * b, "re4": a**4,
            "im4": b**4}.items()}}
    # eight standard errors of 2^16 numbers
    yield attempt({"kind": "random moments", "slack": {
        "re": 23, "im": 23, "re2": 23, "im2": 23, "both": 17, "re4": 80, "im4": 80}},
        moments)


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    kinds = ("harmonic", "slepian", "mesh", "mesh_slepian")
    ctx.model("NoiseCases", cfg(3))
    ctx.model("NoiseCases", cfg(2, cont="TRUE"), expect_violation=True)
    cases = ctx.cases("NoiseCases", cfg(2, kinds, emit="TRUE"), flat=False)
    cases = sorted({tuple(tuple(sorted(s.items())) for s in c) for c in cases})
    cases = [[dict(s) for s in c] for c in cases]
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    L, k = 4, 12
    functions.continents(L)
    units, events = Units(ctx), []
    n = 1 if ctx.quick else 8
    with ctx.unit("exact on the sphere"):
        for _ in range(40 * n):
            events += exact(units, nrng, rng, rng.randrange(1, 9))
    with ctx.unit("exact on a mesh"):
        for _ in range(20 * n):
            events += exact_mesh(units, nrng, rng, rng.choice([8, 12, 16]))
    with ctx.unit("general"):
        for _ in range(40 * n):
            events.append(general(units, nrng, rng, rng.randrange(1, 9)))
        for L_ in (11, 16, 17, 24, 33):
            events.append(general(units, nrng, rng, L_))
    with ctx.unit("unit numbers"):
        events.append(sphere_units(units, 512))
        events.append(mesh_units())
    with ctx.unit("random signals"):
        events += random_signals(rng, 20 * n)
    with ctx.unit("functions"):
        for c in lib.sample(rng, cases, 60 * n):
            events += history(c, units, L, k, rng, ctx)
    with ctx.unit("noise functions"):
        events += noise_functions(units, L, k)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("NoiseTrace", events)
