"""P21: the command which plots on meshes."""

import os
import sys
import tomllib

import figures
import functions
import lib
import numpy as np
import store
from drivers.p15 import camel

SCALE, TOL, HIDE = 20000, 30, figures.HIDDEN
MESHES = ("bird", "cheetah", "cube", "dragon", "homer", "teapot")


def cfg(first="FALSE", some="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS HideFirst = {first}
AnyVertex = {some}
Emitting = {emit}
INVARIANTS AsDeclared InRange OutsideHidden Monotone Independent Emit
CHECK_DEADLOCK FALSE
"""


def shown(fig, how):
    s = fig.data[0]
    cam, bar = fig.layout.scene.camera, s.colorbar.to_plotly_json()
    v = np.stack([np.asarray(x, float) for x in (s.x, s.y, s.z)], 1)
    return {"vertices": v, "faces": np.stack([s.i, s.j, s.k], 1),
            "colour": np.asarray(s.intensity, float), "mode": s.intensitymode,
            "range": [s.cmin, s.cmid, s.cmax],
            "tick": [float(bar.get(k) or 0) for k in ("tick0", "dtick")],
            "bar": bar["x"], "eye": [cam.eye.x, cam.eye.y, cam.eye.z],
            "centre": [cam.center.x, cam.center.y, cam.center.z],
            "filename": how["config"]["toImageButtonOptions"]["filename"]}


def common(got, vertices, faces, unit, rng):
    n = len(vertices)
    pick = [rng.randrange(n) for _ in range(10)]
    ok = got["vertices"].shape == (n, 3)
    s = 10000 / np.abs(vertices).max()
    return {
        "cmin": lib.q(got["range"][0], unit), "cmid": lib.q(got["range"][1], unit),
        "cmax": lib.q(got["range"][2], unit), "tick0": lib.q(got["tick"][0], unit),
        "dtick": lib.q(got["tick"][1], unit), "filename": got["filename"],
        "at": [[lib.qv(vertices[i], s), lib.qv(got["vertices"][i], s) if ok else []]
               for i in pick],
        "same_faces": got["mode"] == "cell" and np.array_equal(got["faces"], faces)}


def draws(cases, rng, n):
    """Fields of whole numbers on small meshes."""
    mesh = functions.mesh(4)
    plot = lib.get("sleplet.plotting", "PlotMesh")
    nrng = np.random.default_rng(rng.randrange(2**31))
    todo = [(c["f"], c["faces"], c["mask"], c["norm"], c["amplitude"])
            for c in lib.sample(rng, cases, n)]
    for _ in range(n):
        v = rng.choice([4, 6, 9])
        top = rng.choice([1, 9, 50])
        f = [rng.randint(-top, top) for _ in range(v)]
        if rng.random() < 0.1:
            f = [f[0]] * v
        faces = [(np.array(rng.sample(range(v), 3)) + 1).tolist()
                 for _ in range(rng.choice([1, 3, 8]))]
        todo.append((f, faces, [rng.random() < 0.7 for _ in range(v)],
                     rng.random() < 0.5, rng.choice([[], [], [rng.choice([1, 7, 60])]])))
    for f, faces, mask, norm, amplitude in todo:
        v, t = nrng.standard_normal((len(f), 3)), np.array(faces) - 1
        mesh.vertices, mesh.faces, mesh.mesh_region = v.copy(), t.copy(), np.array(mask)
        field = np.array(f) / 1.0
        whole = all(mask) and rng.random() < 0.5
        e = {"kind": "exact", "f": f, "faces": faces, "mask": mask, "norm": norm,
             "amplitude": amplitude, "scale": 1000, "tol": 4, "hidden": HIDE,
             "outcome": "ok", "why": ""}
        try:
            with figures.recorded() as out:
                plot(mesh, "mesh", field, normalise=norm, region=not whole,
                     amplitude=float(amplitude[0]) if amplitude else None).execute()
            (fig, how), = out
            got = shown(fig, how)
        except lib.Skip:
            raise
        except Exception as x:  # noqa: BLE001
            yield e | {"outcome": "error", "why": f"{lib.exc_name(x)}: {x}"[:200]}
            continue
        unit = 1000
        yield e | common(got, v, t, unit, rng) | {
            "got": figures.colours(got["colour"], unit if norm else 3 * unit),
            "kept": bool(np.array_equal(field, f) and np.array_equal(mesh.vertices, v)
                         and np.array_equal(mesh.faces, t)
                         and np.array_equal(mesh.mesh_region, mask))}


def call(argv):
    main = lib.get("sleplet._scripts.plotting_on_mesh", "main")
    old, err, sys.argv = sys.argv, sys.stderr, ["mesh", *argv]
    try:
        with figures.recorded() as out, open(os.devnull, "w") as sys.stderr:
            main()
        return "ok", "", out
    except lib.Skip:
        raise
    except SystemExit as e:
        return "exit", str(e.code), []
    except Exception as e:  # noqa: BLE001
        return "error", f"{lib.exc_name(e)}: {e}"[:200], []
    finally:
        sys.argv, sys.stderr = old, err


def few(k):
    """Meshes of the command have few basis functions, as they take minutes."""
    mesh = lib.get("sleplet.meshes", "Mesh")
    real = mesh.__post_init__

    def post(self):
        if self.number_basis_functions is None:
            self.number_basis_functions = k
        real(self)
    mesh.__post_init__ = post
    m = functions.mesh(None, "cheetah")
    if len(m.mesh_eigenvalues) != k:
        raise lib.Skip("meshes cannot be made small")
    return lambda: setattr(mesh, "__post_init__", real)


def choose(o, k, n, rng):
    """A function and its extra arguments."""
    slepian = o["space"] == "slepian"
    if o["method"] == "basis":
        return (("slepian_functions", [rng.randrange(n)]) if slepian
                else ("basis_functions", [rng.randrange(k)]))
    if o["method"] == "field":
        return "slepian_field" if slepian else "field", None
    if o["method"] == "noise":
        return "slepian_noise_field" if slepian else "noise_field", [rng.choice([-3, 0, 5])]
    kw = functions.scales(k, rng)
    # the coefficients at the first scales are there if enough functions are
    if n > 1 and rng.random() < 0.5:
        return "slepian_wavelet_coefficients", [2, 0, 0]
    return "slepian_wavelets", [kw["B"], kw["j_min"], 0]


def reference(f, mesh, c):
    """The field of coefficients on the vertices."""
    basis = np.asarray(mesh.basis_functions)
    if hasattr(f, "mesh_slepian"):
        n = int(f.mesh_slepian.N)
        return np.asarray(c)[:n] @ np.asarray(f.mesh_slepian.slepian_functions)[:n] @ basis
    return np.asarray(c) @ basis


def config(name):
    with (lib.REPO / f"src/sleplet/_data/meshes_regions_{name}.toml").open("rb") as f:
        c = tomllib.load(f)

    def num(*keys):
        return [lib.q(c[k], 1000) for k in keys]
    return {"camera": num("CAMERA_X", "CAMERA_Y", "CAMERA_Z"),
            "centre": num("CENTRE_X", "CENTRE_Y", "CENTRE_Z"),
            "region_zoom": num("REGION_ZOOM")[0], "default_zoom": num("DEFAULT_ZOOM")[0],
            "region_bar": num("REGION_COLOURBAR_POS")[0],
            "default_bar": num("DEFAULT_COLOURBAR_POS")[0]}


def run_command(o, name, mesh, k, n, rng, samples):
    fun, extra = choose(o, k, n, rng)
    if not o["extra"] and extra is not None and "wavelet" not in fun:
        extra = None
    # the options in any order, long or short
    options = [["method", fun]] + [[x] for x in ("region", "unnormalise", "zoom") if o[x]]
    options += [["extra_args", *map(str, extra)]] if extra is not None else []
    options += [["noise", str(o["noise"][0])]] if o["noise"] else []
    argv = [name]
    for word, *values in rng.sample(options, len(options)):
        how = rng.random()
        if len(values) == 1 and word != "extra_args" and how < 0.5:
            argv.append(f"--{word}={values[0]}" if how < 0.25 else f"-{word[0]}{values[0]}")
        else:
            argv += [f"--{word}" if how < 0.5 else f"-{word[0]}", *values]
    outcome, why, out = call(argv)
    e = {"kind": "run", "o": o, "command": " ".join(argv), "outcome": outcome, "why": why,
         "hidden": HIDE, "scale": SCALE, "tol": TOL}
    if len(out) != 1:
        return e | {"outcome": "silent" if outcome == "ok" else outcome}
    got = shown(*out[0])
    base = functions.on_mesh("Mesh" + camel(fun), mesh, extra_args=extra)
    f = base if not o["noise"] else functions.on_mesh(
        "Mesh" + camel(fun), mesh, extra_args=extra, noise=float(o["noise"][0]))
    field = reference(f, mesh, f.coefficients)
    faces = np.asarray(mesh.faces, int)
    mean = field[faces].mean(axis=1)
    if np.abs(field).max() < 1e-9:      # nothing but rounding
        field, mean = 0 * field, 0 * mean
    s = SCALE / (np.abs(field).max() or 1)
    norm = not o["unnormalise"]
    pick = [rng.randrange(len(faces)) for _ in range(samples)]
    inside = np.asarray(mesh.mesh_region)[faces]
    # faces at the boundary of the region, and around it
    border = np.flatnonzero(inside.any(axis=1) & ~inside.all(axis=1))
    pick += [int(x) for x in lib.sample(rng, border.tolist(), 8)]
    pick += [int(x) for x in lib.sample(rng, np.flatnonzero(inside.all(axis=1)).tolist(), 12)]
    ok = got["colour"].shape == mean.shape
    show = got["colour"][pick] if ok else np.full(len(pick), np.inf)
    amplitude = 0
    if o["noise"]:
        amplitude = lib.q(np.abs(reference(base, mesh, base.coefficients)).max(), s)
    unit = SCALE if norm else s
    return e | common(got, mesh.vertices, faces, unit, rng) | {
        "norm": norm, "kept": True, "base": base.name,
        "got": figures.colours(show, unit), "shape": list(got["colour"].shape),
        "faces": [len(faces)], "amplitude": amplitude,
        "top": lib.q(np.abs(field).max(), s), "lo": lib.q(mean.min(), s),
        "hi": lib.q(mean.max(), s), "config": config(name),
        "eye": lib.qv(got["eye"], 1000), "centre": lib.qv(got["centre"], 1000),
        "bar": lib.q(got["bar"], 1000),
        "want": [{"hidden": not inside[i].all(), "v": lib.q(mean[i], s)} for i in pick]}


def commands(cases, rng, each, k=8):
    undo = few(k)
    try:
        by = {}
        for c in cases:
            by.setdefault((c["o"]["space"], c["o"]["method"], tuple(c["o"]["noise"])),
                          []).append(c["o"])
        made = {}
        for i, (_, os_) in enumerate(sorted(by.items())):
            for j, o in enumerate(lib.sample(rng, os_, each)):
                name = MESHES[(i + j) % len(MESHES)]
                if name not in made:
                    m = functions.mesh(k, name)
                    made[name] = m, int(lib.get("sleplet.meshes", "MeshSlepian")(m).N)
                yield run_command(o, name, *made[name][:1], k, made[name][1], rng, 20)
    finally:
        undo()


def usage():
    undo = few(6)
    try:
        for valid, argv in (
            (True, ["cube"]), (True, ["cube", "-m"]), (True, ["cube", "-r", "-z", "-u"]),
            (True, ["cube", "-e", "5"]), (True, ["cube", "-n", "-3"]),
            (False, ["sphere"]), (False, []), (False, ["cube", "-m", "earth"]),
            (False, ["cube", "-e", "6"]), (False, ["cube", "-e", "-1"]),
            (False, ["cube", "-e", "1", "2"]), (False, ["cube", "-e", "0.5"]),
            (False, ["cube", "-m", "field", "-e", "1"]), (False, ["cube", "-n", "x"]),
            (False, ["cube", "-m", "slepian_functions", "-e", "6"]),
            (False, ["cube", "-m", "slepian_wavelets", "-e", "2"]),
            (False, ["cube", "-m", "basis"]), (False, ["gaussian"]),
        ):
            got = lib.Forked(lambda argv=argv: (*(r := call(argv))[:2], len(r[2]))).result()
            if got[0] == "skip":
                raise lib.Skip(got[1])
            out, why, n = got[1] if got[0] == "ok" else ("died", str(got)[:200], 0)
            yield {"kind": "usage", "command": " ".join(argv), "valid": valid, "why": why,
                   "outcome": out if out != "ok" or n == 1 else "silent"}
    finally:
        undo()


def run(ctx):
    rng = ctx.rng
    ctx.model("MeshPlotCases", cfg(first="TRUE"), expect_violation=True)
    ctx.model("MeshPlotCases", cfg(some="TRUE"), expect_violation=True)
    cases = ctx.cases("MeshPlotCases", cfg(emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    lib.get("sleplet._class_lists")
    events = []
    with ctx.unit("draws"):
        events += draws([c for c in cases if c["kind"] == "draw"], rng,
                        150 if ctx.quick else 1500)
    with ctx.unit("commands"):
        events += commands([c for c in cases if c["kind"] == "line"], rng,
                           9 if ctx.quick else 48)
    with ctx.unit("usage"):
        events += usage()
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("MeshPlotTrace", events)
