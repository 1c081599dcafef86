"""P14: names of configurations."""

import json
import pathlib
import sys

import functions
import lib
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
L = 13
# the functions of the specification's cases and the parameters of their labels
CASES = {
    "gaussian": ("Gaussian", {"sig": "sigma"}),
    "elongated_gaussian": ("ElongatedGaussian", {"tsig": "t_sigma", "psig": "p_sigma"}),
    "squashed_gaussian": ("SquashedGaussian", {"tsig": "t_sigma", "freq": "freq"}),
    "harmonic_gaussian": ("HarmonicGaussian", {"lsig": "l_sigma", "msig": "m_sigma"}),
    "spherical_harmonic": ("SphericalHarmonic", {"l": "ell", "m": "m"}),
    "noise_earth": ("NoiseEarth", {"snr": "SNR"}),
    "axisymmetric_wavelets": ("AxisymmetricWavelets", {"B": "B", "jmin": "j_min", "j": "j"}),
    "earth": ("Earth", {}),
}


def cfg(bare="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Bare = {bare}
Emitting = {emit}
INVARIANTS Injective Emit
CHECK_DEADLOCK FALSE
"""


def key(c):
    def plain(v):
        if isinstance(v, dict):
            return {k: plain(x) for k, x in v.items()}
        if isinstance(v, list):
            return [plain(x) for x in v]
        # one number, written either way
        return int(v) if isinstance(v, float) and v.is_integer() else v
    return json.dumps(plain(c), sort_keys=True)


def region(r):
    Region = lib.get("sleplet.slepian", "Region")
    r = dict(r)
    for k in ("theta_min", "theta_max", "phi_min", "phi_max"):
        if k in r:
            r[k] = store.rad(r[k])
    return Region(**r)


def built(c):
    """The name of a configuration."""
    kw = dict(c["kw"])
    if c["space"] == "mesh":
        m = lib.get("sleplet.meshes", "Mesh")(
            c["mesh"], number_basis_functions=c["k"], zoom=c["zoom"])
        return functions.on_mesh(c["fun"], m, **kw).name
    if "region" in kw:
        kw["region"] = region(kw["region"])
    f = functions.make(c["fun"], c["L"], **kw)
    return f.name


def from_case(c):
    cls, labels = CASES[c["fun"]]
    kw = {labels[a["label"]]: a["num"] / a["den"] if a["den"] != 1 else a["num"]
          for a in c["args"]}
    if cls == "AxisymmetricWavelets" and (kw["B"], kw["j_min"]) not in SCALES:
        return None
    if cls == "AxisymmetricWavelets" and kw["j"] > SCALES[kw["B"], kw["j_min"]]:
        return None
    if c["smoothing"] and cls not in functions.SMOOTHABLE:
        return None
    if cls == "SphericalHarmonic" and abs(kw["m"]) > kw["ell"]:
        return None
    if c["noise"]:
        kw["noise"] = c["noise"]
    if c["smoothing"]:
        kw["smoothing"] = c["smoothing"]
    return {"space": "sphere", "fun": cls, "L": L, "kw": kw}


SCALES = {}


def fill_scales():
    import pys2let

    for B in (2, 3, 11):
        for j0 in range(3):
            try:
                top = pys2let.pys2let_j_max(B, L, j0) - j0
            except Exception:  # noqa: BLE001
                continue
            if top >= 0 and j0 <= pys2let.pys2let_j_max(B, L, 0):
                SCALES[B, j0] = top


def number(rng):
    return rng.choice([
        10.0 ** rng.randrange(-6, 7), rng.randrange(1, 1000) / 100,
        rng.randrange(1, 30), rng.randrange(1, 100) / 10,
        # close to each other
        1 + rng.randrange(1, 9) / 10**4, 0.5 + rng.randrange(1, 9) / 10**5])


def random_harmonic(rng, name):
    """A configuration of a harmonic function."""
    n = rng.choice([2, 3, 5, 11, 12, 13])
    kw = functions.harmonic(name, n, rng)
    for k in kw:
        if "sigma" in k or k == "freq":
            kw[k] = number(rng)
        elif k == "SNR":
            kw[k] = rng.choice([-10, 0, 1, 11, 2.5, -2.5, 12, 0.5, -0.5, 10, 0.05])
    if rng.random() < 0.5:
        kw["noise"] = rng.choice([-10, 0, 1, 11, 2.5, -2.5, 12, 0.5, -0.5, 10])
    return {"space": "sphere", "fun": name, "L": n, "kw": kw}


REGIONS = [
    *({"theta_max": t} for t in (50, 60, 61, 70, 90, 110)),
    *({"theta_max": t, "gap": True} for t in (20, 30, 40)),
    {"theta_min": 1, "theta_max": 140, "phi_min": 0, "phi_max": 90},
    {"theta_min": 11, "theta_max": 140, "phi_min": 0, "phi_max": 90},
    {"theta_min": 1, "theta_max": 140, "phi_min": 9, "phi_max": 90},
    {"theta_min": 0, "theta_max": 140, "phi_min": 10, "phi_max": 90},
    {"theta_min": 10, "theta_max": 140, "phi_min": 10, "phi_max": 190},
    {"theta_min": 10, "theta_max": 140, "phi_min": 11, "phi_max": 190},
    {"mask_name": "africa"}, {"mask_name": "south_america"},
]
SMALL = 3
# functions whose region is the only valid one, and no part of the name
BOUND = ("SlepianAfrica", "SlepianSouthAmerica", "SlepianNoiseAfrica",
         "SlepianNoiseSouthAmerica", "SlepianWaveletCoefficientsAfrica",
         "SlepianWaveletCoefficientsSouthAmerica")


def slepian(rng):
    """Configurations of the Slepian functions over all regions."""
    for reg in REGIONS:
        for name in ("SlepianDiracDelta", "SlepianIdentity", "SlepianWavelets", "Slepian"):
            if name == "Slepian":
                args = [{"rank": r} for r in range(3)]
            elif name == "SlepianWavelets":
                args = [{"B": B, "j_min": j0, "j": j} for B in (2, 3) for j0 in (0, 1)
                        for j in (None, 0, 1)]
            else:
                args = [{}]
            for a in args:
                more = {} if rng.random() < 0.5 else {"noise": rng.choice([1, -1, 11])}
                yield {"space": "sphere", "fun": name, "L": SMALL,
                       "kw": {"region": reg, **a, **more}}
    for name in BOUND:
        reg = {"mask_name": functions.continent(name)}
        if "Wavelet" in name:
            args = [{"B": B, "j_min": j0, "j": j} for B in (2, 3) for j0 in (0, 1)
                    for j in (None, 0)]
        elif "Noise" in name:
            args = [{"SNR": s} for s in (-10, -1, 1, 10, 2.5)]
        else:
            args = [{}]
        for a in args:
            for more in ({}, {"noise": 1}, {"smoothing": 1}, {"noise": 1, "smoothing": 2},
                         {"noise": 10}, {"smoothing": 2}):
                yield {"space": "sphere", "fun": name, "L": SMALL,
                       "kw": {"region": reg, **a, **more}}


def masked(rng):
    """Configurations of harmonic functions with a region."""
    for reg in REGIONS:
        for name, a in (("Gaussian", {"sigma": 1}), ("Identity", {}),
                        ("SphericalHarmonic", {"ell": 1, "m": -1})):
            for more in ({}, {"noise": 1}):
                yield {"space": "sphere", "fun": name, "L": SMALL,
                       "kw": {"region": reg, **a, **more}}
    # every whole degree
    for t in range(1, 180):
        yield {"space": "sphere", "fun": "Identity", "L": SMALL,
               "kw": {"region": {"theta_max": t} | ({"gap": True} if t % 2 else {})}}
        yield {"space": "sphere", "fun": "Identity", "L": SMALL,
               "kw": {"region": {"theta_min": t, "theta_max": 180, "phi_min": 2 * t,
                                 "phi_max": 360}}}


def meshes(rng, k=6):
    for m in ("teapot", "cube", "dragon", "bird", "cheetah", "homer"):
        for zoom in (False, True):
            for reg in (False, True):
                for name in (*functions.MESH_HARMONIC, *functions.MESH_SLEPIAN):
                    if name.startswith("MeshSlepian") and not reg:
                        continue
                    if name in ("MeshBasisFunctions", "MeshSlepianFunctions"):
                        args = [{"rank": r} for r in range(3)]
                    elif name == "MeshSlepianWavelets":
                        args = [{"B": B, "j_min": j0, "j": j} for B in (2, 3)
                                for j0 in (0, 1) for j in (None, 0)]
                    elif "Coefficients" in name:
                        args = [{"B": B, "j_min": j0} for B in (2, 3) for j0 in (0, 1)]
                    elif "Noise" in name:
                        args = [{"SNR": s} for s in (-10, -1, 1, 10, 2.5)]
                    else:
                        args = [{}]
                    for a in args:
                        more = rng.choice([{}, {"noise": 1}, {"noise": 10}])
                        yield {"space": "mesh", "fun": name, "mesh": m, "k": k,
                               "zoom": zoom, "kw": {**a, **more, "region": reg}}


def plots(rng):
    """Names of plots with all their options, as functions without arguments."""
    import numpy as np

    sph = lib.get("sleplet.plotting", "PlotSphere")
    flat = lib.get("sleplet.plotting", "PlotMesh")
    m = functions.mesh(4, "cube")
    out = []
    for name in ("a_L2", "a_L8", "b_L2"):
        n = int(name[3:])
        field = np.zeros((n, 2 * n - 1))
        for part in ("real", "imag", "abs", "sum"):
            for up in (True, False):
                for norm in (True, False):
                    c = {"space": "plot", "name": name, "part": part, "up": up,
                         "norm": norm}
                    out.append((c, sph(field, n, name, plot_type=part, upsample=up,
                                       normalise=norm).filename))
    for name in ("a", "b"):
        for norm in (True, False):
            c = {"space": "meshplot", "name": name, "norm": norm}
            out.append((c, flat(m, name, np.zeros(len(m.vertices)),
                                normalise=norm).filename))
    return out


def names(configs):
    """Names of configurations; `None` for one which this tree rejects."""
    out = []
    for c in configs:
        try:
            out.append(built(c))
        except lib.Skip:
            raise
        except Exception as e:  # noqa: BLE001
            # not a valid configuration here: too few Slepian functions for the
            # rank or the wavelet coefficients
            out.append("!" if isinstance(e, (IndexError, ValueError)) and (
                "rank" in c["kw"] or "Coefficients" in c["fun"])
                else f"!{type(e).__name__}: {str(e)[:200]}")
    return out


def angles(rng, n):
    """Names of rotations, which become a part of the name of a plot."""
    fn = lib.get("sleplet._string_methods", "filename_angle")
    seen = {}
    values = [0, 1, 2, 0.5, 0.25, 0.75, 0.125, 1.5, 0.1, 0.01, 0.11, 1.1, 0.2, 0.02, -0.5,
              -0.25, -1, -1.5, 0.1234, 0.1235, 1.0001, 1.0004]
    for _ in range(n):
        a = tuple(rng.choice(values) for _ in range(3))
        seen[a] = fn(*a)
    return [[key({"angles": list(a)}), s] for a, s in sorted(seen.items())]


def again(ctx, configs, env):
    code = ("import sys, pathlib, lib, json\n"
            "lib.isolate(sys.argv[1]); lib.import_sleplet()\n"
            "import numpy; numpy.random.seed(99)\n"
            "from drivers import p14\n"
            "p14.child(sys.argv[1])\n")
    p = ctx.child(code, ctx.scratch / "child", env=env | ENV, timeout=600,
                  data=json.dumps(configs))
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout.splitlines()[-1])


def child(scratch):
    store.use_dir(pathlib.Path(scratch) / "d")
    functions.put_data()
    functions.continents(SMALL)
    for n in (2, 5, 11, 12, 13):
        functions.continents(n)
    print(json.dumps(names(json.load(sys.stdin))))


def event(group, configs, pairs, second, first):
    bad = [s for _, s in pairs if s.startswith("!")]
    e = {"kind": "names", "group": group,
         "outcome": "ok" if not bad else "raised", "problems": bad[:3],
         "pairs": pairs, "again": second, "first": first,
         "codes": sorted({ord(x) for _, s in pairs for x in s})}
    return e


def run(ctx):
    rng = ctx.rng
    ctx.model("NameCases", cfg())
    ctx.model("NameCases", cfg("TRUE"), expect_violation=True)
    cases = ctx.cases("NameCases", cfg(emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    for n in (SMALL, 2, 5, 11, 12, 13):
        functions.continents(n)
    fill_scales()
    groups = {}
    n = 1 if ctx.quick else 8
    groups["cases"] = [c for c in map(from_case, cases) if c]
    groups["harmonic"] = [random_harmonic(rng, f) for f in functions.HARMONIC
                          for _ in range(12 * n)]
    groups["slepian"] = list(slepian(rng))
    groups["masked"] = list(masked(rng))
    groups["meshes"] = list(meshes(rng))
    events, everything = [], []
    for g, configs in groups.items():
        with ctx.unit(g):
            configs = list({key(c): c for c in configs}.values())
            got = names(configs)
            valid = [i for i, s in enumerate(got) if s != "!"]
            if 2 * len(valid) > len(got):
                configs = [configs[i] for i in valid]
                got = [got[i] for i in valid]
            pairs = [[key(c), s] for c, s in zip(configs, got)]
            if g != "meshes":
                everything += pairs
            chosen = sorted(rng.sample(range(len(configs)),
                                       min(len(configs), 60 * n)))
            second = again(ctx, [configs[i] for i in chosen],
                           {"PYTHONHASHSEED": str(7 + len(g))})
            events.append(event(g, configs, pairs, second, [got[i] for i in chosen]))
    with ctx.unit("all functions on the sphere"):
        events.append(event("sphere", None, sorted(map(list, {
            (k, s) for k, s in everything})), [], []))
    with ctx.unit("plots"):
        pairs = [[key(c), s] for c, s in plots(rng)]
        events.append(event("plots", None, pairs, [], []))
    with ctx.unit("angles"):
        events.append(event("angles", None, angles(rng, 400 * n), [], []))
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("NameTrace", events)
