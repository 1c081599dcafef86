"""P11: declared reality and spin of functions on the sphere."""

import functions
import lib
import numpy as np
import store
from drivers.p08 import attempt, gauss

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**5, 3


def cfg(values, depth, *, keep="FALSE", noise="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Values <- {values}
Depth = {depth}
KeepDeclaration = {keep}
ComplexNoise = {noise}
Emitting = {emit}
INVARIANTS DeclaredIsReal Same Emit
CHECK_DEADLOCK FALSE
"""


def coefficients(h, L):
    """Coefficients in units of the greatest, and the fields which they give."""
    import pyssht as ssht

    flm = np.asarray(h.coefficients, dtype=complex)
    top = np.abs(flm).max(initial=0) or 1.0
    flm = flm / top
    spin = int(h.spin)
    out = {"reality": bool(h.reality), "spin": spin, "flm": lib.qcv(flm, SCALE),
           "imaginary": 0, "difference": 0}
    if h.reality and spin == 0:
        f = ssht.inverse(flm, L, Method="MWSS")
        g = ssht.inverse(flm, L, Method="MWSS", Reality=True)
        out |= {"imaginary": lib.q(np.abs(f.imag).max() / np.abs(f).max(initial=1e-300),
                                   SCALE),
                "difference": lib.q(np.abs(f - g).max() / np.abs(f).max(initial=1e-300),
                                    SCALE)}
    return out


def apply(h, op, L, rng, nrng):
    if op == "rotate":
        a = nrng.uniform(0, 2 * np.pi, 3)
        h.coefficients = h.rotate(a[0], a[1] / 2, gamma=a[2])
    elif op == "translate":
        a = nrng.uniform(0, 2 * np.pi, 2)
        h.coefficients = h.translate(a[0], a[1] / 2)
    elif op == "convolve":
        # with another function, or with any coefficients in front
        f = gauss(nrng, L * L)
        if rng.random() < 0.5:
            g = functions.make(rng.choice(["Earth", "Wmap", "Identity"]), L)
            h.coefficients = h.convolve(h.coefficients, g.coefficients)
        else:
            h.coefficients = h.convolve(f if rng.random() < 0.5 else f.real.copy(),
                                        h.coefficients)


def function(name, L, ops, rng, nrng):
    kw = functions.harmonic(name, L, rng)
    if "smoothing" not in ops:
        kw.pop("smoothing", None)
    elif name in functions.SMOOTHABLE:
        kw["smoothing"] = rng.choice([1, 2, 4])
    if "noise" in ops:
        kw["noise"] = rng.choice([-10.0, 0.0, 5.0, 10.0])
    spin = kw.get("spin", 0)
    event = {"kind": "function", "function": name, "L": L, "ops": ops,
             "args": {k: str(v) for k, v in kw.items()}, "want_spin": spin, "tol": TOL,
             "noised": "noise" in ops or name == "NoiseEarth", "scale": SCALE}

    def go():
        h = functions.make(name, L, **kw)
        for op in ops:
            apply(h, op, L, rng, nrng)
        return coefficients(h, L)
    return attempt(event, go)


def slepian_function(name, L, noise, rng):
    where = functions.continent(name) or rng.choice(("polar", "gap", "box", "africa"))
    kw = functions.slepian(name, L, rng, where)
    if name == "Slepian":
        kw["rank"] = rng.randrange(4)
    if noise:
        kw["noise"] = rng.choice([-10.0, 0.0, 10.0])
    event = {"kind": "slepian", "function": name, "L": L, "where": where, "want_spin": 0, "tol": TOL,
             "args": {k: str(v) for k, v in kw.items()}}

    def go():
        h = functions.make(name, L, **kw)
        f = lib.get("sleplet.slepian_methods", "slepian_inverse")(
            np.asarray(h.coefficients), L, h.slepian)
        return {"reality": bool(h.reality), "spin": int(h.spin), "imaginary": lib.q(
            np.abs(f.imag).max() / np.abs(f).max(initial=1e-300), SCALE)}
    return attempt(event, go)


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    depth = 3 if ctx.quick else 4
    cases = ctx.cases("RealityCases", cfg("Few", depth, emit="TRUE"), flat=False)
    ctx.model("RealityCases", cfg("Many", 2))
    ctx.model("RealityCases", cfg("Few", 2, keep="TRUE"), expect_violation=True)
    ctx.model("RealityCases", cfg("Few", 2, noise="TRUE"), expect_violation=True)
    behaviours = sorted({tuple(c) for c in cases}) + [("build",)]
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    sizes = (1, 2, 3, 5, 8) if ctx.quick else (1, 2, 3, 4, 5, 6, 7, 8, 12)
    for L in {*sizes, 4}:
        functions.continents(L)
    events = []
    for name in functions.HARMONIC:
        with ctx.unit(name):
            for ops in lib.sample(rng, behaviours, 24 if ctx.quick else 400):
                L = rng.choice(sizes)
                events.append(function(name, L, list(ops), rng, nrng))
            for L in sizes[1:]:
                for ops in ([], ["noise"], ["smoothing"], ["noise", "smoothing"]):
                    events.append(function(name, L, ops, rng, nrng))
            if functions.harmonic(name, 4, rng):
                # the parameters alone decide
                for _ in range(24 if ctx.quick else 300):
                    L = rng.choice((2, 3, 4))
                    events.append(function(name, L, [], rng, nrng))
    for name in functions.SLEPIAN:
        with ctx.unit(name):
            for k in range((40 if name == "Slepian" else 12) * (1 if ctx.quick else 5)):
                e = slepian_function(name, rng.choice((2, 3, 4)), k % 2, rng)
                # a region may have too few functions for the parameters drawn
                if e["outcome"] == "ok":
                    events.append(e)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("RealityTrace", events)
