"""Configurations whose results are saved, and what is observed of a run."""

import os
import pathlib

import lib
import numpy as np
import sphere

SCALE, TOL = 10**6, 3


def rad(x):
    return float(np.deg2rad(x))


def data_dir():
    return pathlib.Path(os.environ["XDG_DATA_HOME"])


def use_dir(path):
    """Everything saved and found is in this folder, from now on."""
    path = pathlib.Path(path)
    for k, sub in (("XDG_DATA_HOME", "data"), ("XDG_CACHE_HOME", "cache")):
        (path / sub).mkdir(parents=True, exist_ok=True)
        os.environ[k] = str(path / sub)


def polar(L, theta_max, gap=False, order=None):
    kw = {} if order is None else {"order": order}
    s = lib.get("sleplet.slepian", "SlepianPolarCap")(L, rad(theta_max), gap=gap, **kw)
    n = len(s.eigenvalues) if order is not None else int(s.N)
    return s.eigenvalues, s.eigenvectors, n, np.atleast_1d(s.order)


def box(L, tmin, tmax, pmin, pmax):
    s = lib.get("sleplet.slepian", "SlepianLimitLatLon")(
        L, theta_min=rad(tmin), theta_max=rad(tmax), phi_min=rad(pmin), phi_max=rad(pmax)
    )
    return s.eigenvalues, s.eigenvectors, int(s.N)


def mask(L, name):
    s = lib.get("sleplet.slepian", "SlepianArbitrary")(L, name)
    return s.eigenvalues, s.eigenvectors, int(s.N)


def mesh(name, k):
    m = lib.get("sleplet.meshes", "Mesh")(name, number_basis_functions=k)
    v = np.linspace(0, m.vertices.shape[0] - 1, 20).astype(int)
    return m.mesh_eigenvalues, m.basis_functions[:, v], len(m.mesh_eigenvalues)


def mesh_slepian(name, k):
    m = lib.get("sleplet.meshes", "Mesh")(name, number_basis_functions=k)
    s = lib.get("sleplet.meshes", "MeshSlepian")(m)
    v = np.linspace(0, m.vertices.shape[0] - 1, 20).astype(int)
    ev = np.concatenate([m.mesh_eigenvalues, s.slepian_eigenvalues])
    fun = s.slepian_functions[: int(s.N)] @ m.basis_functions[:, v]
    return ev, fun, int(s.N)


MAKERS = {"polar": polar, "box": box, "mask": mask, "mesh": mesh,
          "mesh_slepian": mesh_slepian}


def label(cfg):
    return "-".join(str(x) for x in cfg)


def saves(cfg):
    return not (cfg[0] == "polar" and len(cfg) > 4)


def files():
    """Saved files with what changes when they are written again."""
    out = {}
    for p in sorted(data_dir().rglob("*.npy")):
        s = p.stat()
        out[p.name] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return {k: v for k, v in out.items() if not k.startswith("slepian_masks_")}


def put_masks(masks):
    for name, m in masks:
        sphere.save_mask(name, m)


def quantise(ans):
    ev, fun, n, *orders = ans
    scale = SCALE
    if fun.size and np.iscomplexobj(fun):
        f = np.concatenate([fun.real, fun.imag], axis=1)
    else:
        f = np.asarray(fun)
    return {"ev": lib.qv(ev, scale), "fun": [lib.qv(r, scale) for r in f[:n]],
            "n": int(n), "orders": [int(m) for o in orders for m in o]}


EMPTY = {"ev": [], "fun": [], "n": -1, "orders": []}


def compute(cfg):
    """The observation of one computation in this process."""
    before = files()
    try:
        out = {"outcome": "ok", **quantise(MAKERS[cfg[0]](*cfg[1:]))}
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        out = {"outcome": "error", "exc": f"{lib.exc_name(e)}: {e}"[:200], **EMPTY}
    after = files()
    wrote = sorted(k for k in after if after[k] != before.get(k))
    return {**out, "cfg": label(cfg), "tol": TOL, "wrote": wrote, "saves": saves(cfg)}


def reference(cfg, where, masks):
    """The answer in a process and folder of its own."""
    use_dir(where)
    put_masks(masks)
    return compute(cfg)


STORE = """SPECIFICATION Spec
CONSTANTS Configs = {{"a", "b", "d"}}
Base = "a"
Dependent = "d"
Procs = {procs}
Parts = {parts}
Versions = {versions}
Atomic = {atomic}
Separate = {separate}
MaxRuns = {runs}
MaxRemove = {remove}
INVARIANTS Answers NeverFails OwnFiles
PROPERTY Reused
CHECK_DEADLOCK FALSE
"""


def store_cfg(procs=2, parts=2, versions=1, atomic=True, separate=True, runs=3, remove=1):
    def many(xs):
        return "{" + ", ".join(f'"p{x}"' for x in range(xs)) + "}"

    return STORE.format(
        procs=many(procs), parts=parts, atomic=str(atomic).upper(), runs=runs,
        separate=str(separate).upper(), remove=remove,
        versions="{" + ", ".join(str(v + 1) for v in range(versions)) + "}",
    )
