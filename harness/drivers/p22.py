"""P22: results are functions of their arguments."""

import hashlib
import pickle
import random

import figures
import functions
import lib
import numpy as np
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
OBJECTS = "ab"


def cfg(design="pure", steps=3, *, invariants="Function Isolated Kept", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Design = "{design}"
Steps = {steps}
Emitting = {emit}
INVARIANTS {invariants} Emit
CHECK_DEADLOCK FALSE
"""


# --- what can be seen of a value --------------------------------------------
def leaves(x, path="", out=None, depth=0):
    """Public arrays, numbers and texts of a value, by their path."""
    out = {} if out is None else out
    if isinstance(x, np.generic | int | float | complex | bool) and not isinstance(x, str):
        out[path] = np.asarray(x)
    elif x is None or isinstance(x, str | bytes):
        out[path] = x
    elif isinstance(x, np.ndarray):
        out[path] = np.array(x) if x.dtype != object else str(x)
    elif isinstance(x, dict):
        for k, v in x.items():
            leaves(v, f"{path}.{k}", out, depth)
    elif isinstance(x, list | tuple):
        out[path + "#"] = len(x)
        for i, v in enumerate(x):
            leaves(v, f"{path}[{i}]", out, depth)
    elif type(x).__module__.startswith("sleplet") and hasattr(x, "__dict__") and depth < 6:
        n = vars(x).get("N")
        for k, v in vars(x).items():
            if k.startswith("_"):
                continue
            if k in ("eigenvalues", "eigenvectors", "slepian_eigenvalues",
                     "slepian_functions") and n is not None:
                v = np.asarray(v)[:int(n)]      # others are not always kept
            leaves(v, f"{path}.{k}", out, depth + 1)
    else:
        out[path] = str(type(x))
    return out


def alike(a, b):
    if a.keys() != b.keys():
        return False
    for k, x in a.items():
        y = b[k]
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray):
            return False
        if not isinstance(x, np.ndarray):
            if x != y:
                return False
            continue
        if x.shape != y.shape or (x.dtype.kind in "bU") != (y.dtype.kind in "bU"):
            return False
        if x.dtype.kind in "bU":
            if not np.array_equal(x, y):
                return False
        elif x.size:
            top = max(np.abs(np.nan_to_num(x)).max(), 1e-12)
            if not np.allclose(x, y, rtol=0, atol=1e-9 * top, equal_nan=True):
                return False
    return True


class Values:
    """Numbers of values, equal for equal values."""

    def __init__(self):
        self.known = {}

    def __call__(self, key, value):
        seen = self.known.setdefault(key, [])
        for i, v in enumerate(seen):
            if alike(v, value):
                return i
        seen.append(value)
        return len(seen) - 1


# --- the calls --------------------------------------------------------------
def M(module, name):
    return lib.get(f"sleplet.{module}", name)


def rnd(which, *shape, salt=0):
    g = np.random.default_rng([ord(which), salt])
    return g.standard_normal(shape) + 1j * g.standard_normal(shape)


def plotted(fn):
    with figures.recorded() as out:
        fn()
    (fig, how), = out
    s = fig.data[0]
    colour = s.surfacecolor if s.type == "surface" else s.intensity
    return {"x": np.asarray(s.x), "z": np.asarray(s.z), "colour": np.asarray(colour),
            "range": [s.cmin, s.cmax], "how": how["config"]["toImageButtonOptions"]["filename"]}


def harmonic_objects(which):
    L = 4
    pick = random.Random(f"harmonic{which}")
    earth = functions.make("Earth", L)
    return {"L": L, "flm": rnd(which, L * L), "glm": rnd(which, L * L, salt=1),
            "wav": rnd(which, 3, L * L, salt=2), "f": rnd(which, L + 1, 2 * L, salt=3),
            "real": rnd(which, L + 1, 2 * L, salt=4).real,
            "closed": rnd(which, L + 1, 2 * L + 1, salt=5).real,
            "values": rnd(which, L * L, salt=6).real + 0j,
            "vectors": rnd(which, L * L, L * L, salt=7),
            "sigma": np.array([0.3, 0.5]), "extra": [2.0], "extra2": [2, 1], "lm": [2, -1],
            "region": M("slepian", "Region")(theta_max=store.rad(60 if which == "a" else 100)),
            "wavelets": np.asarray(functions.make("AxisymmetricWavelets", L, B=2,
                                                  j_min=0).wavelets).copy(),
            "fun": functions.make("Gaussian", L) if which == "a" else earth,
            "params": {n: functions.harmonic(n, L, pick) for n in functions.HARMONIC}}


HARMONIC = {f"make {n}": lambda o, n=n: functions.make(n, o["L"], **o["params"][n])
            for n in functions.HARMONIC} | {
    "extra Gaussian": lambda o: functions.make("Gaussian", o["L"], extra_args=o["extra"]),
    "extra Elongated": lambda o: functions.make("ElongatedGaussian", o["L"],
                                                extra_args=o["extra2"]),
    "extra Harmonic": lambda o: functions.make("SphericalHarmonic", o["L"],
                                               extra_args=o["lm"]),
    "noised": lambda o: functions.make("Earth", o["L"], noise=5.0),
    "masked": lambda o: functions.make("Gaussian", o["L"], region=o["region"]),
    "translate": lambda o: o["fun"].translate(0.7, 0.4),
    "translate delta": lambda o: functions.make("DiracDelta", o["L"]).translate(0.7, 0.4),
    "rotate": lambda o: o["fun"].rotate(0.7, 0.4, gamma=0.2),
    "rotate": lambda o: o["fun"].rotate(0.7, 0.4, gamma=0.2),
    "convolve": lambda o: o["fun"].convolve(o["flm"], o["glm"]),
    "create noise": lambda o: M("noise", "_create_noise")(o["L"], o["flm"], 5.0),
    "snr": lambda o: M("noise", "compute_snr")(o["flm"], o["glm"], "Harmonic"),
    "sigma": lambda o: M("noise", "compute_sigma_noise")(o["flm"], 3.0),
    "sigma j": lambda o: M("noise", "_compute_sigma_j")(o["flm"], o["wavelets"][1:], 3.0),
    "threshold": lambda o: M("noise", "harmonic_hard_thresholding")(
        o["L"], o["wav"], o["sigma"], 2),
    "wavelet forward": lambda o: M("wavelet_methods", "axisymmetric_wavelet_forward")(
        o["L"], o["flm"], o["wavelets"]),
    "wavelet inverse": lambda o: M("wavelet_methods", "axisymmetric_wavelet_inverse")(
        o["L"], o["wavelets"] * 1, o["wavelets"]),
    "non zero": lambda o: M("wavelet_methods", "find_non_zero_wavelet_coefficients")(
        o["wav"], axis=1),
    "boosted": lambda o: M("harmonic_methods", "invert_flm_boosted")(o["flm"], o["L"], 9),
    "boost field": lambda o: M("plot_methods", "_boost_field")(
        o["f"], o["L"], 8, reality=False, spin=0, upsample=True),
    "africa": lambda o: M("harmonic_methods", "rotate_earth_to_africa")(o["flm"], o["L"]),
    "south america": lambda o: M("harmonic_methods", "rotate_earth_to_south_america")(
        o["flm"], o["L"]),
    "bandlimited": lambda o: M("_mask_methods", "ensure_masked_flm_bandlimited")(
        o["flm"], o["L"], o["region"], reality=False, spin=0),
    "mask": lambda o: M("_mask_methods", "create_mask_region")(o["L"], o["region"]),
    "amplitude": lambda o: M("plot_methods", "find_max_amplitude")(o["fun"]),
    "nearest": lambda o: M("plot_methods", "_calc_nearest_grid_point")(o["L"], 0.3, 0.6),
    "random": lambda o: M("harmonic_methods", "compute_random_signal")(
        o["L"], np.random.default_rng(3), var_signal=2.0),
    "plot": lambda o: plotted(lambda: M("plotting", "PlotSphere")(
        o["f"], o["L"], "field", upsample=False).execute()),
    "plot part": lambda o: plotted(lambda: M("plotting", "PlotSphere")(
        o["f"], o["L"], "field", plot_type="abs", region=o["region"], upsample=False,
        normalise=False).execute()),
}


def inner(module, name, *a, **k):
    """A call within the package, which need not have this form."""
    f = M(module, name)
    try:
        return f(*a, **k)
    except (AttributeError, TypeError) as e:
        raise lib.Skip(f"{module}.{name}: {e}") from e


def created(L):
    """A mask of the Earth, which is saved: what was there is put back."""
    name = f"africa_L{L}.npy"
    f = store.data_dir() / f"slepian_masks_{name}"
    before = f.read_bytes() if f.exists() else None
    try:
        return inner("_mask_methods", "create_mask", L, name)
    finally:
        if before is not None:
            f.write_bytes(before)
        else:
            f.unlink(missing_ok=True)


HARMONIC |= {
    "values": lambda o: inner("noise", "_perform_hard_thresholding", o["f"], 0.5, 2),
    "values sigma": lambda o: inner("noise", "_perform_hard_thresholding", o["f"],
                                    np.abs(o["f"][::-1]), 1),
    **{f"plot type {t}": lambda o, t=t: inner("plot_methods", "_create_plot_type", o["f"], t)
       for t in ("abs", "imag", "real", "sum")},
    "normalised": lambda o: inner("plot_methods", "_normalise_function", o["closed"],
                                  normalise=True),
    "outside": lambda o: inner("plot_methods", "_set_outside_region_to_minimum",
                               o["closed"], o["L"], o["region"]),
    "weight": lambda o: inner("_integration_methods", "calc_integration_weight", o["L"]),
    "whole": lambda o: inner("_integration_methods", "integrate_whole_sphere",
                             o["real"], o["f"], o["real"]),
    "one factor": lambda o: inner("_integration_methods", "integrate_whole_sphere",
                                  o["real"], o["f"]),
    "part": lambda o: inner("_integration_methods", "integrate_region_sphere",
                            o["real"] > 0, o["real"], o["f"], o["f"]),
    "sifting": lambda o: inner("_convolution_methods", "sifting_convolution",
                               o["flm"], o["glm"]),
    "sifting many": lambda o: inner("_convolution_methods", "sifting_convolution",
                                    o["wav"], o["glm"]),
    "more zeros": lambda o: inner("harmonic_methods", "_boost_coefficient_resolution",
                                  o["flm"], 9),
    "no more zeros": lambda o: inner("harmonic_methods", "_boost_coefficient_resolution",
                                     o["flm"], 0),
    "not boosted": lambda o: M("harmonic_methods", "invert_flm_boosted")(
        o["flm"], o["L"], o["L"]),
    "kappas": lambda o: inner("wavelet_methods", "create_kappas", o["L"] ** 2, 2, 0),
    "smoothed": lambda o: inner("_smoothing", "apply_gaussian_smoothing", o["flm"], o["L"], 2),
    "sorted": lambda o: inner("_slepian_arbitrary_methods", "clean_evals_and_evecs",
                              (o["values"], o["vectors"])),
    "create mask": lambda o: created(o["L"]),
}


def slepian_objects(which, kind):
    L = 3
    pick = random.Random(f"slepian{which}{kind}")
    where = {"polar": {"a": {"theta_max": 70}, "b": {"theta_max": 35, "gap": True}},
             "box": {"a": {"theta_min": 20, "theta_max": 120, "phi_max": 90},
                     "b": {"theta_min": 20, "theta_max": 120, "phi_max": 200}},
             "mask": {"a": {"mask_name": "africa"}, "b": {"mask_name": "south_america"}}}
    kw = {k: store.rad(v) if k not in ("gap", "mask_name") else v
          for k, v in where[kind][which].items()}
    region = M("slepian", "Region")(**kw)
    fun = functions.make("SlepianDiracDelta", L, region=region)
    s = fun.slepian
    n = int(s.N)
    names = [x for x in functions.SLEPIAN
             if functions.continent(x) in (None, kw.get("mask_name"))]
    params = {}
    for x in names:
        params[x] = {k: v for k, v in functions.slepian(x, L, pick, "polar").items()
                     if k != "region"}
    return {"L": L, "region": region, "slepian": s, "N": n, "f_p": rnd(which, n),
            "g_p": rnd(which, n, salt=1), "flm": rnd(which, L * L, salt=2),
            "f": rnd(which, L + 1, 2 * L, salt=3),
            "mask": np.arange((L + 1) * 2 * L).reshape(L + 1, 2 * L) % 3 > 0,
            "wavelets": np.abs(rnd(which, 3, n, salt=4)), "wav": rnd(which, 3, n, salt=5),
            "sigma": np.array([0.2, 0.4, 0.6]), "fun": fun, "params": params}


def make_slepian(n, o):
    if n not in o["params"]:
        return None
    return functions.make(n, o["L"], region=o["region"], **o["params"][n])


S = "slepian_methods"
SLEPIAN = {f"make {n}": lambda o, n=n: make_slepian(n, o) for n in functions.SLEPIAN} | {
    "noised": lambda o: functions.make("SlepianIdentity", o["L"], region=o["region"], noise=3.0),
    "forward f": lambda o: M(S, "slepian_forward")(o["L"], o["slepian"], f=o["f"]),
    "forward flm": lambda o: M(S, "slepian_forward")(o["L"], o["slepian"], flm=o["flm"]),
    "forward mask": lambda o: M(S, "slepian_forward")(
        o["L"], o["slepian"], f=o["f"], mask=o["mask"]),
    "inverse": lambda o: M(S, "slepian_inverse")(o["f_p"], o["L"], o["slepian"]),
    "functions": lambda o: M(S, "compute_s_p_omega")(o["L"], o["slepian"]),
    "choose": lambda o: M(S, "choose_slepian_method")(o["L"], o["region"]),
    "threshold": lambda o: M("noise", "slepian_function_hard_thresholding")(
        o["L"], o["f_p"], 0.3, 2, o["slepian"]),
    "threshold wavelets": lambda o: M("noise", "slepian_wavelet_hard_thresholding")(
        o["L"], o["wav"], o["sigma"], 2, o["slepian"]),
    "sigma j": lambda o: M("noise", "_compute_slepian_sigma_j")(
        o["L"], o["f_p"], o["wavelets"], 3.0, o["slepian"]),
    "create noise": lambda o: M("noise", "_create_slepian_noise")(
        o["L"], o["f_p"], o["slepian"], 3.0),
    "wavelet forward": lambda o: M("wavelet_methods", "slepian_wavelet_forward")(
        o["f_p"], o["wavelets"], o["N"]),
    "wavelet inverse": lambda o: M("wavelet_methods", "slepian_wavelet_inverse")(
        o["wav"], o["wavelets"], o["N"]),
    "translate": lambda o: o["fun"].translate(np.pi / 3, np.pi / 3, shannon=o["N"]),
    "convolve": lambda o: o["fun"].convolve(o["f_p"], o["g_p"], shannon=o["N"]),
    "mask": lambda o: M("_mask_methods", "create_mask_region")(o["L"], o["region"]),
    "amplitude": lambda o: M("plot_methods", "find_max_amplitude")(o["fun"]),
    "plot": lambda o: plotted(lambda: M("plotting", "PlotSphere")(
        o["f"], o["L"], "field", region=o["region"], upsample=False).execute()),
}


def mesh_objects(which):
    mesh = functions.mesh(5, "cube" if which == "a" else "bird")
    ms = M("meshes", "MeshSlepian")(mesh)
    n, k, v = int(ms.N), 5, len(mesh.vertices)
    pick = random.Random(f"mesh{which}")
    params = {x: functions.mesh_function(x, k, pick)
              for x in (*functions.MESH_HARMONIC, *functions.MESH_SLEPIAN)}
    return {"name": mesh.name, "mesh": mesh, "ms": ms, "u": rnd(which, v).real,
            "u_i": rnd(which, k, salt=1).real, "f_p": rnd(which, n, salt=2).real,
            "wav": rnd(which, 2, n, salt=3).real, "psi": np.abs(rnd(which, 2, n, salt=4)),
            "sigma": np.array([0.2, 0.4]), "params": params,
            "vertices": np.array(mesh.vertices), "faces": np.array(mesh.faces),
            "part": rnd(which, v, salt=5).real > 0,
            "config": dict(zip(("XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX"),
                               (-0.4, 0.7, -0.5, 0.9, -0.3, 0.6), strict=True)),
            "many": rnd(which, 3, v, salt=6).real,
            "fun": functions.on_mesh("MeshField", mesh)}


T, H = "sleplet.slepian_methods", "harmonic_methods"
MESH = {f"make {n}": lambda o, n=n: functions.on_mesh(n, o["mesh"], **o["params"][n])
        for n in (*functions.MESH_HARMONIC, *functions.MESH_SLEPIAN)} | {
    "mesh": lambda o: functions.mesh(5, o["name"]),
    "zoomed": lambda o: M("meshes", "Mesh")(o["name"], number_basis_functions=5, zoom=True),
    "decomposition": lambda o: M("meshes", "MeshSlepian")(o["mesh"]),
    "noised": lambda o: functions.on_mesh("MeshField", o["mesh"], noise=4.0),
    "slepian noised": lambda o: functions.on_mesh("MeshSlepianField", o["mesh"], noise=4.0),
    "masked": lambda o: functions.on_mesh("MeshField", o["mesh"], region=True),
    "forward": lambda o: M(H, "mesh_forward")(o["mesh"], o["u"]),
    "inverse": lambda o: M(H, "mesh_inverse")(o["mesh"], o["u_i"]),
    "slepian forward u": lambda o: M(S, "slepian_mesh_forward")(o["ms"], u=o["u"]),
    "slepian forward masked": lambda o: M(S, "slepian_mesh_forward")(
        o["ms"], u=o["u"], mask=True),
    "slepian forward u_i": lambda o: M(S, "slepian_mesh_forward")(o["ms"], u_i=o["u_i"]),
    "slepian inverse": lambda o: M(S, "slepian_mesh_inverse")(o["ms"], o["f_p"]),
    "bandlimited": lambda o: M("_mask_methods", "ensure_masked_bandlimit_mesh_signal")(
        o["mesh"], o["u_i"]),
    "faces": lambda o: M("_mask_methods", "convert_region_on_vertices_to_faces")(o["mesh"]),
    "noise": lambda o: M("noise", "_create_mesh_noise")(o["u_i"], 3.0),
    "slepian noise": lambda o: M("noise", "_create_slepian_mesh_noise")(
        o["ms"], o["f_p"], 3.0),
    "sigma j": lambda o: M("noise", "compute_slepian_mesh_sigma_j")(
        o["ms"], o["f_p"], o["psi"], 3.0),
    "threshold": lambda o: M("noise", "slepian_mesh_hard_thresholding")(
        o["ms"], o["wav"], o["sigma"], 2),
    "plot": lambda o: plotted(lambda: M("plotting", "PlotMesh")(
        o["mesh"], "field", o["u"]).execute()),
    "plot region": lambda o: plotted(lambda: M("plotting", "PlotMesh")(
        o["mesh"], "field", o["u"], region=True, normalise=False).execute()),
}

MM, IM = "_mesh_methods", "_integration_methods"
MESH |= {
    "onto faces": lambda o: inner(MM, "average_functions_on_vertices_to_faces",
                                  o["faces"], o["u"]),
    "many onto faces": lambda o: inner(MM, "average_functions_on_vertices_to_faces",
                                       o["faces"], o["many"]),
    "mesh region": lambda o: inner(MM, "create_mesh_region", o["config"], o["vertices"]),
    "eigenfunctions": lambda o: inner(MM, "mesh_eigendecomposition", f"x{o['name']}",
                                      o["vertices"], o["faces"], number_basis_functions=4),
    "orthonormal": lambda o: inner(MM, "_orthonormalise_basis_functions", o["vertices"],
                                   o["faces"], o["many"]),
    "whole": lambda o: inner(IM, "integrate_whole_mesh", o["vertices"], o["faces"], o["u"],
                             o["u"]),
    "one factor": lambda o: inner(IM, "integrate_whole_mesh", o["vertices"], o["faces"],
                                  o["u"]),
    "part": lambda o: inner(IM, "integrate_region_mesh", o["part"], o["vertices"],
                            o["faces"], o["u"], o["u"]),
    "shannon": lambda o: inner("_slepian_arbitrary_methods", "compute_mesh_shannon",
                               o["mesh"]),
}
GROUPS = {
    "harmonic": (harmonic_objects, HARMONIC, ("flm", "glm", "wav", "f", "sigma", "extra",
                                              "extra2", "lm", "region", "wavelets", "fun",
                                              "real", "closed", "values", "vectors")),
    **{f"slepian {k}": (lambda w, k=k: slepian_objects(w, k), SLEPIAN,
                        ("region", "slepian", "f_p", "g_p", "flm", "f", "mask", "wavelets",
                         "wav", "sigma", "fun"))
       for k in ("polar", "box", "mask")},
    "mesh": (mesh_objects, MESH, ("mesh", "ms", "u", "u_i", "f_p", "wav", "psi", "sigma",
                                  "fun", "vertices", "faces", "part", "config", "many")),
}


# --- histories --------------------------------------------------------------
def randomness():
    """The state of the global generators."""
    now = pickle.dumps([random.getstate(), np.random.get_state()])
    return hashlib.sha256(now).hexdigest()


def arrays(x, depth=0):
    """Arrays of a value, as they are."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, dict | list | tuple):
        for v in x.values() if isinstance(x, dict) else x:
            yield from arrays(v, depth)
    elif type(x).__module__.startswith("sleplet") and hasattr(x, "__dict__") and depth < 6:
        for v in vars(x).values():
            yield from arrays(v, depth + 1)


def scribble(result, objects):
    """The caller does what it likes with what it got, but for what it gave."""
    own = list(arrays(objects))
    for a in arrays(result):
        if a.flags.writeable and a.dtype.kind in "fciub" and not any(
                np.may_share_memory(a, o) for o in own):
            a[...] = 3


def disturb(rng):
    k = rng.randrange(1000)
    np.random.seed(k)
    random.seed(k)
    np.random.standard_normal(rng.randrange(5))


def offer(where):
    """A folder with the data, and nothing which the package saved."""
    store.use_dir(where)
    store.data_dir().mkdir(parents=True, exist_ok=True)
    functions.put_data()
    for L in (3, 4):
        functions.continents(L)


def history(group, steps, seed, where=None, scribbled=False):
    """Raw events of calls in this process, one after the other."""
    make, ops, names = GROUPS[group]
    rng = random.Random(seed)
    if where is not None:
        offer(where)
        disturb(rng)
    objects = {w: make(w) for w in sorted({s["object"] for s in steps if s["object"]})}
    held = [(w, n) for w in objects for n in names]

    def contents():
        out = [leaves(objects[w][n]) for w, n in held]
        for x in out:       # withdrawn by translations and convolutions
            x.pop(".reality", None)
        return out
    labels = [f"{group} {w} {n}" for w, n in held]
    out = [{"kind": "begin", "group": group, "objects": labels, "contents": contents()}]
    for s in steps:
        if s["do"] == "disturb":
            disturb(rng)
            out.append({"kind": "disturb"})
            continue
        e = {"kind": "call", "call": f"{group} {s['object']}: {s['op']}", "objects": labels,
             "outcome": "ok"}
        before = randomness()
        try:
            result = ops[s["op"]](objects[s["object"]])
            e["result"] = leaves(result)
            if scribbled:
                scribble(result, objects)
        except lib.Skip as x:
            e |= {"outcome": "skip", "result": {"": str(x)}}
        except Exception as x:  # noqa: BLE001
            e |= {"outcome": f"{lib.exc_name(x)}: {x}"[:150], "result": {}}
        e["random"] = "kept" if randomness() == before else "changed"
        out.append(e | {"after": contents()})
    return out


def concrete(case, group, rng):
    """The history with three of the calls of a group."""
    ops = rng.sample(sorted(GROUPS[group][1]), 3)
    return [s | {"op": ops[s["op"] - 1] if s["do"] == "call" else ""} for s in case["steps"]]


def run(ctx):
    rng = ctx.rng
    steps = 3 if ctx.quick else 4
    cases = ctx.cases("PurityCases", cfg(steps=steps, emit="TRUE"))
    for design, inv in (("global", "Isolated"), ("goes_on", "Function"),
                        ("partial_key", "Isolated"), ("writes", "Kept")):
        ctx.model("PurityCases", cfg(design, invariants=inv), expect_violation=True)
    offer(ctx.scratch / "d")
    alone, later = [], []
    for group, (_, ops, _) in GROUPS.items():
        for w in OBJECTS:
            # whatever is saved, first
            alone.append((history, group, [{"do": "disturb", "object": w}], 0))
    lib.parallel(alone)
    alone = [(history, group, [{"do": "call", "object": w, "op": op}], 0)
             for group, (_, ops, _) in GROUPS.items() for op in ops for w in OBJECTS]
    each = 40 if ctx.quick else 400
    cases = [c for c in cases if sum(s["do"] == "call" for s in c["steps"]) > 1]
    for group in GROUPS:
        for i, c in enumerate(lib.sample(rng, cases, each)):
            later.append((history, group, concrete(c, group, rng), i))
        # a call in between of two of the same
        for op in GROUPS[group][1]:
            other = rng.choice(sorted(GROUPS[group][1]))
            w, v = rng.choice(["aa", "ab", "ba", "bb"])
            one = {"do": "call", "object": w, "op": op}
            later.append((history, group, [one, {"do": "disturb", "object": ""},
                                           one | {"object": v, "op": other}, one], 1))
            # and of the same with other arguments
            v = "b" if w == "a" else "a"
            later.append((history, group, [one, one | {"object": v}, one], 1, None, True))
    # what was saved makes no difference either
    for i in range(2 if ctx.quick else 20):
        for group in GROUPS:
            if group != "harmonic":
                steps = [{"do": "call", "object": w, "op": rng.choice(sorted(GROUPS[group][1]))}
                         for w in rng.sample(OBJECTS, 2)]
                later.append((history, group, steps, 50 + i, ctx.scratch / f"{group}{i}"))
    events, value = [], Values()
    skipped, died = set(), []
    for job, got in zip(alone + later, lib.parallel(alone + later), strict=True):
        if got[0] == "skip":
            skipped.add(got[1])
            continue
        if got[0] != "ok":
            died.append((job[1:3], got))
            continue
        for e in got[1]:
            if e["kind"] == "begin":
                e["contents"] = [value(n, c) for n, c in
                                 zip(e["objects"], e["contents"], strict=True)]
            elif e["kind"] == "call":
                if e["outcome"] == "skip":
                    skipped.add(str(e["result"]))
                e["result"] = value(e["call"], e["result"])
                e["after"] = [value(n, c) for n, c in zip(e["objects"], e["after"], strict=True)]
            events.append(e)
    ctx.died = died
    for what, got in died:
        print(what, got)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("PurityTrace", events)
