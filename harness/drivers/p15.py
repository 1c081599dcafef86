"""P15: definitions of the functions on the sphere and arguments of the command line."""

import fractions

import functions
import lib
import numpy as np
import sphere
import store
from drivers.p08 import attempt, fixed, gauss, on_grid, with_functions

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**5, 6
F = fractions.Fraction


def cfg(width, reverse="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Width = {width}
Reversed = {reverse}
Emitting = {emit}
INVARIANTS InOrder Shapes Energy Emit
CHECK_DEADLOCK FALSE
"""


def some(positional="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Positional = {positional}
Emitting = {emit}
INVARIANTS Had Untouched Emit
CHECK_DEADLOCK FALSE
"""


def camel(name):
    return "".join(w.capitalize() for w in name.split("_"))


def pair(x):
    f = F(x).limit_denominator(10**6)
    return [f.numerator, f.denominator]


def size(rng, L=99):
    if L < 5 and rng.random() < 0.5:            # no overflow of the specification
        return F(rng.randrange(2, 10), 100)
    return F(rng.choice([1, 1, 2, 3, 5, 7, 10, 20, 100]), rng.choice([1, 1, 2, 3, 4, 10]))


def logs(L, c):
    """Zeros, positive numbers and minus twice the logarithms of coefficients."""
    c = np.asarray(c, dtype=complex)
    zero = c == 0
    with np.errstate(all="ignore"):
        e = np.where(np.abs(c) > 0, -2 * np.log(np.abs(c)), 0)
    return {"zero": [bool(x) for x in zero],
            "positive": [bool(x.imag == 0 and x.real > 0) for x in c],
            "exponent": [int(round(x * 1000)) for x in e]}


def coefficients(fun, L, args, names):
    event = {"kind": "coefficients", "fun": fun, "L": L, "args": [pair(a) for a in args],
             "unit": 1000, "tol": 3}

    def go():
        kw = {k: (int(a) if fun == "spherical_harmonic" else float(a))
              for k, a in zip(names, args)}
        return logs(L, functions.make(camel(fun), L, **kw).coefficients)
    return attempt(event, go)


def closed_forms(rng, n):
    for i in range(n):
        L = rng.choice([13, 16, 17, 24, 33, 40]) if i % 5 == 0 else rng.randrange(1, 12)
        yield coefficients("gaussian", L, [size(rng, L)], ["sigma"])
        yield coefficients("harmonic_gaussian", L, [size(rng, L), size(rng, L)],
                           ["l_sigma", "m_sigma"])
        yield coefficients("identity", L, [], [])
        ell = rng.randrange(L)
        yield coefficients("spherical_harmonic", L, [F(ell), F(rng.randrange(-ell, ell + 1))],
                           ["ell", "m"])

        def delta(L=L):
            c = np.asarray(functions.make("DiracDelta", L).coefficients)
            sq = 4 * np.pi * np.abs(c) ** 2
            return {"square": lib.qv(sq, 1000),
                    "positive": [bool(x.imag == 0 and x.real >= 0) for x in c]}
        yield attempt({"kind": "delta", "L": L, "unit": 1000}, delta)


def field(fun, L, a, b):
    """The transform of the defined field, whose samples the trace checks."""
    import pyssht as ssht

    t, p = sphere.mwss_grid(L)
    T, P = np.meshgrid(t, p, indexing="ij")
    e = (T / float(a)) ** 2
    if fun == "elongated_gaussian":
        e = e + ((P - np.pi) / float(b)) ** 2
    f = np.exp(-e / 2)
    samples = [[i, j, lib.q(e[i, j] / np.pi**2, 1000)]
               for i in range(len(t)) for j in range(len(p))]
    if fun == "squashed_gaussian":
        f = f * np.sin(float(b) * P)
    want = ssht.forward(f.astype(float), L, Method="MWSS", Reality=True)
    event = {"kind": "field", "fun": fun, "L": L, "args": [pair(a), pair(b)],
             "T": L, "P": L, "samples": samples, "unit": 1000, "tol": TOL,
             "want": fixed(want)}
    kw = {"elongated_gaussian": ("t_sigma", "p_sigma"),
          "squashed_gaussian": ("t_sigma", "freq")}[fun]
    return attempt(event, lambda: {"got": fixed(functions.make(
        camel(fun), L, **dict(zip(kw, (float(a), float(b))))).coefficients)})


def fields(rng, n):
    for i in range(n):
        for fun in ("elongated_gaussian", "squashed_gaussian"):
            L = rng.choice([11, 13, 16]) if i % 5 == 4 else rng.randrange(1, 9)
            yield field(fun, L, size(rng), size(rng))


def scale_is_valid(B, size, j0, j):
    import pys2let

    return (j0 <= pys2let.pys2let_j_max(B, size, 0)
            and j <= pys2let.pys2let_j_max(B, size, j0) - j0)


def extra(case, L, rng):
    """The same function by arguments of the command line and by keywords."""
    fun, xs = case["fun"], list(case["extra"])
    name = camel(fun)
    kw = {}
    base = {"kind": "extra", "fun": fun, "extra": xs, "L": L}
    if fun.startswith("slepian"):
        kw["region"] = functions.region(functions.continent(name) or rng.choice(
            ["polar", "box"]), rng)
    spec = {"gaussian": ["sigma"], "elongated_gaussian": ["t_sigma", "p_sigma"],
            "squashed_gaussian": ["t_sigma", "freq"],
            "harmonic_gaussian": ["l_sigma", "m_sigma"],
            "spherical_harmonic": ["ell", "m"], "slepian": ["rank"],
            "ridgelets": ["B", "j_min", "spin", "j"]}.get(
                fun, ["SNR"] if len(xs) == 1 else ["B", "j_min", "j"])
    power = "gaussian" in fun
    values = [10.0 ** x if power else x for x in xs]
    keywords = dict(zip(spec, values))
    if "B" in keywords and not scale_is_valid(
            keywords["B"], L * L if fun.startswith("slepian") else L,
            keywords["j_min"], keywords["j"]):
        return None
    if fun == "spherical_harmonic" and xs[0] >= L:
        return None

    def go():
        h = functions.make(name, L, extra_args=xs, **kw)
        g = functions.make(name, L, **keywords, **kw)
        got = {k: pair(getattr(h, k)) for k in spec}
        a, b = np.asarray(h.coefficients), np.asarray(g.coefficients)
        return {"set": got, "name": h.name, "keyword_name": g.name,
                "same": bool(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0))}
    out = attempt(base, go)
    # too few Slepian functions of the region for the selected scale
    if out.get("exc", "").startswith("IndexError") and fun.startswith("slepian"):
        return None
    return out


PARAMETERS = {"gaussian": ["sigma"], "elongated_gaussian": ["t_sigma", "p_sigma"],
              "squashed_gaussian": ["t_sigma", "freq"],
              "harmonic_gaussian": ["l_sigma", "m_sigma"],
              "spherical_harmonic": ["ell", "m"], "ridgelets": ["B", "j_min", "spin", "j"]}
SCALE_DEFAULTS = {"B": 3, "j_min": 2, "j": None}


def names_of(fun):
    if fun in PARAMETERS:
        return PARAMETERS[fun]
    return (["SNR"] if "noise" in fun else ["B", "j_min", "j"] if "wavelet" in fun
            else ["rank"])


def default(case, L, mesh, rng):
    """Some parameters by name, in this order, and all of those it then has."""
    fun, given = case["fun"], {k: v for k, v in case["given"]}
    region = functions.region(functions.continent(camel(fun)) or rng.choice(
        ["polar", "box"]), rng) if fun.startswith("slepian") else None
    if "B" in names_of(fun):
        w = SCALE_DEFAULTS | {k: v for k, v in given.items() if k != "spin"}
        n = (len(mesh.basis_functions) if fun.startswith("mesh")
             else L * L if region else L)
        if not scale_is_valid(w["B"], n, w["j_min"], w["j"] or 0):
            return None

    def make(**kw):
        if fun.startswith("mesh"):
            return functions.on_mesh(camel(fun), mesh, **kw)
        return functions.make(camel(fun), L, **kw, **({"region": region} if region else {}))

    def go():
        f = make(**{k: float(v) if k == "SNR" or "sigma" in k or k == "freq" else v
                    for k, v in given.items()})
        have = {k: getattr(f, k) for k in names_of(fun)}
        g = make(**have)
        a, b = np.asarray(f.coefficients), np.asarray(g.coefficients)
        return {"set": {k: [1000, 1] if v is None else pair(v) for k, v in have.items()},
                "name": f.name, "explicit_name": g.name,
                "same": bool(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0))}
    out = attempt({"kind": "default", "fun": fun, "given": case["given"]}, go)
    few = fun == "slepian" or "rank" in given or "wavelet_coefficients" in fun
    # fewer Slepian functions of the region than those selected
    if few and out["outcome"] != "ok" and out.get("exc", "").startswith(
            ("IndexError", "ValidationError", "ValueError")):
        return None
    return out


def defaults(cases, L, rng, n):
    mesh = functions.mesh(24)
    by = {}
    for c in cases:
        by.setdefault((c["fun"], min(len(c["given"]), 2)), []).append(c)
    for (fun, _), cs in sorted(by.items()):
        with_slepian = "slepian" in fun or "noise" in fun
        for c in lib.sample(rng, cs, n if with_slepian else 2 * n):
            yield default(c, L, mesh, rng)


def slepian_functions(rng, nrng, n):
    for _ in range(n):
        L = rng.choice([2, 3, 4])
        kind = rng.choice(["polar", "gap", "box", "africa", "south_america"])
        reg = functions.region(kind, rng)
        s = lib.get("sleplet.slepian_methods", "choose_slepian_method")(L, reg)
        N = int(s.N)
        if not N:
            continue
        rank = rng.randrange(N)
        yield attempt({"kind": "selected", "L": L, "region": kind, "rank": rank, "n": N,
                       "scale": SCALE, "tol": TOL}, lambda: {"got": fixed(functions.make(
                           "Slepian", L, region=reg, rank=rank).coefficients)})
        yield attempt({"kind": "ones", "L": L, "region": kind, "scale": SCALE},
                      lambda: {"got": fixed(functions.make(
                          "SlepianIdentity", L, region=reg).coefficients)})
        table = on_grid(np.asarray(s.eigenvectors)[:N], L)
        yield attempt({"kind": "slepian_delta", "L": L, "region": kind, "tol": TOL,
                       "first": lib.qv(table[0].real, SCALE),
                       "functions": [fixed(row) for row in table]},
                      lambda: {"got": fixed(functions.make(
                          "SlepianDiracDelta", L, region=reg).coefficients)})


def run(ctx):
    rng, nrng = ctx.rng, np.random.default_rng(ctx.seed)
    ctx.model("DefinitionCases", cfg(2))
    ctx.model("DefinitionCases", cfg(2, reverse="TRUE"), expect_violation=True)
    cases = ctx.cases("DefinitionCases", cfg(4, emit="TRUE"))
    ctx.model("DefaultCases", some())
    ctx.model("DefaultCases", some(positional="TRUE"), expect_violation=True)
    given = ctx.cases("DefaultCases", some(emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    for R in (2, 3, 4):
        functions.continents(R)
    events = []
    n = 1 if ctx.quick else 6
    with ctx.unit("closed forms"):
        events += closed_forms(rng, 25 * n)
    with ctx.unit("fields"):
        events += fields(rng, 15 * n)
    by = {}
    for c in cases:
        by.setdefault(c["fun"], []).append(c)
    for fun, cs in sorted(by.items()):
        with ctx.unit(f"extra arguments of {fun}"):
            rng.shuffle(cs)
            found = 0
            for c in cs:
                e = extra(c, 4, rng)
                if e:
                    events.append(e)
                    found += 1
                if found >= (6 if "slepian" in fun or "noise" in fun else 16) * n:
                    break
    with ctx.unit("defaults"):
        events += [e for e in defaults(given, 4, rng, 3 * n) if e]
    with ctx.unit("Slepian functions"):
        events += slepian_functions(rng, nrng, 20 * n)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("DefinitionTrace", events)
