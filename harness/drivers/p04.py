"""P04: registry, then local file, then computation."""

import os
import pathlib

import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
CASES = """SPECIFICATION Spec
CONSTANTS Files = {{{files}}}
Depth = {depth}
INVARIANTS OncePerProcess RegistryFirst LocalThen ComputedOnce NoNetworkNeeded {emit}
CHECK_DEADLOCK FALSE
"""


def faults():
    import requests

    return {
        "ConnectionError": requests.exceptions.ConnectionError("no route"),
        "Timeout": requests.exceptions.Timeout("slow"),
        "HTTPError": requests.exceptions.HTTPError("503"),
        "OSError": OSError("network is unreachable"),
        "TimeoutError": TimeoutError("timed out"),
        "ValueError": ValueError("unrecognised repository"),
        "JSONDecodeError": requests.exceptions.JSONDecodeError("bad", "doc", 0),
        "PermissionError": PermissionError("cache is not writable"),
    }


def stand_in(names, remote_dir, fate, log):
    """The registry answers without a network."""
    import pooch

    def load(self, *_a, **_k):
        if fate == "ok":
            log.append({"kind": "load", "result": "listed"})
            self.registry = dict.fromkeys(names, "md5:0")
            return
        log.append({"kind": "load", "result": "unavailable", "exc": fate})
        raise faults()[fate]

    def fetch(self, fname, *_a, **_k):
        if fname not in self.registry:
            raise ValueError(f"{fname} is not in the registry")
        return str(pathlib.Path(remote_dir) / fname)

    pooch.Pooch.load_registry_from_doi = load
    pooch.Pooch.fetch = fetch


def arrays(what):
    """The arrays of a result which are saved or loaded."""
    kind, *a = what
    if kind == "polar":
        s = lib.get("sleplet.slepian", "SlepianPolarCap")(a[0], store.rad(a[1]))
        return [s.eigenvalues, s.eigenvectors, np.asarray(s.order)]
    if kind == "box":
        s = lib.get("sleplet.slepian", "SlepianLimitLatLon")(
            a[0], **dict(zip(("theta_min", "theta_max", "phi_min", "phi_max"),
                             map(store.rad, a[1:]), strict=True)))
        return [s.eigenvalues, s.eigenvectors]
    if kind == "mask":
        s = lib.get("sleplet.slepian", "SlepianArbitrary")(*a)
        return [s.eigenvalues, s.eigenvectors]
    if kind == "region":
        f = lib.get("sleplet._mask_methods", "create_mask_region")
        r = lib.get("sleplet.slepian", "Region")
        return [np.asarray(f(a[0], r(mask_name=a[1]))).astype(float)]
    if kind == "mesh":
        m = lib.get("sleplet.meshes", "Mesh")(a[0], number_basis_functions=a[1])
        return [m.mesh_eigenvalues, m.basis_functions]
    if kind == "mesh_slepian":
        m = lib.get("sleplet.meshes", "Mesh")(a[0], number_basis_functions=a[1])
        s = lib.get("sleplet.meshes", "MeshSlepian")(m)
        return [s.slepian_eigenvalues, s.slepian_functions]
    raise ValueError(kind)


def mark(x, by):
    if x.dtype == bool:
        return x.astype(float) + by
    if x.dtype.kind in "iu":
        # orders of L = 3, shifted such that they remain orders
        return (x + 2 + int(by * 4)) % 5 - 2
    return x + by


MARKS = {"computed": 0, "local": 0.25, "remote": 0.5}


def origin(x, base):
    for name, by in MARKS.items():
        want = mark(base, by)
        k = min(len(want), len(x))
        if k and np.allclose(np.asarray(x)[:k], want[:k], atol=1e-6):
            return name
    return "unknown"


def learn(what, where, masks):
    """The files of a result and the arrays in them, in the order of `arrays`."""
    store.use_dir(where)
    store.put_masks(masks)
    put_earth()
    stand_in([], where, "ok", [])
    before = set(all_files())
    base = arrays(what)
    out = []
    new = [f for f in all_files() if f not in before]
    for x in base:
        x = np.asarray(x)
        for f in new:
            y = np.load(store.data_dir() / f)
            k = min(len(x), len(y)) if x.ndim == y.ndim else 0
            if k and x.shape[1:] == y.shape[1:] and np.allclose(x[:k], y[:k]):
                out.append((f, y))
                new.remove(f)
                break
        else:
            raise lib.Skip(f"{what}: an array is not saved on its own")
    support = {f: np.load(store.data_dir() / f) for f in new}
    return [f for f, _ in out], [np.asarray(x) for x in base], [y for _, y in out], support


def all_files():
    return sorted(p.name for p in store.data_dir().glob("*.npy"))


def put_earth():
    import scipy.io as sio

    rng = np.random.default_rng(5)
    L = 20
    flm = (rng.standard_normal(L * L) + 1j * rng.standard_normal(L * L)) / 10
    sio.savemat(store.data_dir() / "EGM2008_Topography_flms_L2190.mat",
                {"flm": flm[:, None]})


def use(what, where, masks, learnt, remote, local, fate, times):
    names, base, saved, support = learnt
    store.use_dir(where)
    store.put_masks([m for m in masks if f"slepian_masks_{m[0]}" not in names[0]])
    put_earth()
    for f, y in support.items():
        np.save(store.data_dir() / f, y)
    rdir = pathlib.Path(where) / "remote"
    rdir.mkdir()
    out = [{"kind": "process", "remote": [names[i] for i in remote],
            "local": [names[i] for i in local]}]
    stand_in([names[i] for i in remote], rdir, fate, out)
    for i, (f, y) in enumerate(zip(names, saved, strict=True)):
        if i in remote:
            np.save(rdir / f, mark(y, MARKS["remote"]))
        if i in local:
            np.save(store.data_dir() / f, mark(y, MARKS["local"]))
    for k in range(times):
        before = store_stat()
        want = {"kind": "use", "what": store.label(what), "parts": names, "time": k,
                "saves": True, "fate": fate}
        try:
            got = arrays(what)
            src = [origin(x, b) for x, b in zip(got, base, strict=True)]
            if k > 0:
                # what the first use computed and saved comes from the local folder
                src = ["local" if s == "computed" and names[i] in wrote_once else s
                       for i, s in enumerate(src)]
            e = {**want, "outcome": "ok", "from": src}
        except lib.Skip:
            raise
        except Exception as x:  # noqa: BLE001
            e = {**want, "outcome": "error", "from": [],
                 "exc": f"{lib.exc_name(x)}: {x}"[:200]}
        now = store_stat()
        e["wrote"] = sorted(f for f in now if now[f] != before.get(f))
        if k == 0:
            wrote_once = set(e["wrote"])
        elif set(e["wrote"]) & wrote_once:
            e["from"] = ["computed" for _ in e["from"]]
        out.append(e)
    return out


def store_stat():
    return {p.name: (p.stat().st_ino, p.stat().st_mtime_ns)
            for p in store.data_dir().glob("*.npy")}


# names which contain each other, or differ in case
SCHEMES = (("f1", "f2", "f3"), ("a", "b_a", "a_b"), ("a_L2", "a_L20", "aa_L2"),
           ("A", "a", "aA"), ("a.npy", "a", "x.npy.a"), ("a_L1", "a.L1", "aXL1"))


def find(where, case, fate, scheme=0):
    case = {k: [SCHEMES[scheme][int(f[1]) - 1] for f in v] if isinstance(v, list) else v
            for k, v in case.items()}
    store.use_dir(where)
    rdir = pathlib.Path(where) / "remote"
    rdir.mkdir()
    for f in case["remote"]:
        np.save(rdir / f"{f}.npy", np.ones(2))
    for f in case["local"]:
        np.save(store.data_dir() / f"{f}.npy", np.ones(2))
    out = [{"kind": "process", "remote": [f"{f}.npy" for f in case["remote"]],
            "local": [f"{f}.npy" for f in case["local"]]}]
    stand_in([f"{f}.npy" for f in case["remote"]], rdir, fate, out)
    fn = lib.get("sleplet._data.setup_pooch", "find_on_pooch_then_local")
    for f in case["asks"]:
        before = store_stat()
        e = {"kind": "find", "parts": [f"{f}.npy"], "fate": fate}
        try:
            p = fn(f"{f}.npy")
            src = "computed" if p is None else (
                "remote" if pathlib.Path(p) == rdir / f"{f}.npy"
                else "local" if pathlib.Path(p) == store.data_dir() / f"{f}.npy"
                else "unknown")
            e |= {"outcome": "ok", "from": src}
        except Exception as x:  # noqa: BLE001
            e |= {"outcome": "error", "from": "none",
                  "exc": f"{lib.exc_name(x)}: {x}"[:200]}
        now = store_stat()
        e["wrote"] = sorted(k for k in now if now[k] != before.get(k))
        out.append(e)
    return out


def run(ctx):
    files = '"f1", "f2", "f3"'
    if not ctx.quick:
        ctx.model("Lookup", CASES.format(files=files, depth=4, emit=""))
    cases = ctx.cases("Lookup", CASES.format(files=files, depth=2, emit="Emit"))
    rng = np.random.default_rng(ctx.seed)
    mask = sphere.blob_mask(4, rng)
    masks = [("va", mask)]
    bad_fates = sorted(faults())

    def fate(case):
        return "ok" if case["fate"] == "ok" else ctx.rng.choice(bad_fates)

    jobs = []
    with ctx.unit("find"):
        lib.get("sleplet._data.setup_pooch", "find_on_pooch_then_local")
        for c in lib.sample(ctx.rng, cases, 90 if ctx.quick else 1152):
            jobs.append((find, ctx.scratch / f"find-{len(jobs)}", c, fate(c), 0))
        for k in range(1, len(SCHEMES)):
            for c in lib.sample(ctx.rng, [c for c in cases if c["fate"] == "ok"],
                                30 if ctx.quick else 200):
                jobs.append((find, ctx.scratch / f"find-{len(jobs)}", c, "ok", k))
    consumers = [("polar", 3, 60), ("box", 2, 30, 120, 20, 200), ("mask", 2, "va"),
                 ("region", 4, "south_america"), ("mesh", "cube", 8),
                 ("mesh_slepian", "cube", 8)]
    keys = ("f1", "f2", "f3")
    for what in consumers:
        with ctx.unit(store.label(what)):
            r = ctx.forked(learn, what, ctx.scratch / f"learn-{len(jobs)}", masks)
            if r[0] == "skip":
                raise lib.Skip(r[1])
            if r[0] != "ok":
                ctx.crashes.append({"module": "driver", "clause": "unexpected_exception",
                                    "event": {"kind": "crash", "text": str(r)[:1500]}})
                continue
            n = len(r[1][0])
            seen = {}
            for c in cases:
                rem = tuple(i for i in range(n) if keys[i] in c["remote"])
                loc = tuple(i for i in range(n) if keys[i] in c["local"])
                seen[rem, loc, c["fate"]] = c
            for (rem, loc, f) in lib.sample(
                ctx.rng, sorted(seen), 14 if ctx.quick else 128
            ):
                jobs.append((use, what, ctx.scratch / f"use-{len(jobs)}", masks, r[1],
                             rem, loc, fate({"fate": f}), 2))
    events = []
    for i, r in enumerate(lib.parallel(jobs)):
        events += [dict(e, trace=i) for e in ctx.value("lookup", r) or ()]
    os.environ["XDG_DATA_HOME"] = str(ctx.scratch / "data")
    ctx.events = events
    return ctx.judge("LookupTrace", events)
