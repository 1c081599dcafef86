"""P16: accepted and rejected arguments."""

import itertools
import functions
import lib
import numpy as np
import sphere
import store
from drivers.p15 import camel

ENV = {"NUMBA_DISABLE_JIT": "1"}
L, N, K = 4, 7, 24
NONE = 1000
PARAMETERS = {
    "slepian": ["rank"], "mesh_basis_functions": ["rank"],
    "mesh_slepian_functions": ["rank"], "gaussian": ["sigma"],
    "elongated_gaussian": ["t_sigma", "p_sigma"],
    "squashed_gaussian": ["t_sigma", "freq"],
    "harmonic_gaussian": ["l_sigma", "m_sigma"], "spherical_harmonic": ["ell", "m"],
    "ridgelets": ["B", "j_min", "spin", "j"],
}


def cfg(loose="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS Bandlimit = {L}
Basis = {K}
Shannon = {N}
Loose = {loose}
Emitting = {emit}
INVARIANTS Meaningful DownwardClosed Counted Emit
CHECK_DEADLOCK FALSE
"""


def parameters(fun, n):
    return PARAMETERS.get(fun, ["SNR"] if n == 1 else ["B", "j_min", "j"])


def outcome(fn, timeout=120):
    """Whether a construction is accepted, in a fork as native code may abort."""
    got = lib.Forked(fn).result(timeout)
    if got[0] == "skip":
        raise lib.Skip(got[1])
    if got[0] == "ok":
        return {"outcome": "accepted", "finite": bool(got[1]), "why": ""}
    if got[0] == "raised":
        return {"outcome": "rejected", "finite": True, "why": f"{got[1]}: {got[2]}"[:160]}
    return {"outcome": "died", "finite": True, "why": str(got)}


class Places:
    """The regions and the mesh of the constructions, with their Shannon numbers."""

    def __init__(self):
        Region = lib.get("sleplet.slepian", "Region")
        self.regions = {"polar": Region(theta_max=store.rad(70)),
                        "africa": Region(mask_name="africa"),
                        "south_america": Region(mask_name="south_america")}
        choose = lib.get("sleplet.slepian_methods", "choose_slepian_method")
        self.numbers = {k: int(choose(L, r).N) for k, r in self.regions.items()}
        self.mesh = functions.mesh(K)
        self.numbers["mesh"] = int(lib.get("sleplet.meshes", "MeshSlepian")(self.mesh).N)


def construction(places, case, how):
    case = dict(case)
    fun, args = case["fun"], list(case["args"])
    mesh = fun.startswith("mesh_")
    case["N"] = places.numbers["mesh" if mesh else case["region"]]
    case["L"] = K if mesh else L
    if fun in ("slepian", "mesh_slepian_functions"):
        args = [{N: case["N"], N - 1: case["N"] - 1}.get(a, a) for a in args]
    case["args"] = args
    kw = {}
    if not mesh and fun.startswith("slepian"):
        kw["region"] = places.regions[case["region"]]
    if case["given"]:
        given = [None if a == NONE else a for a in args]
        if not case["whole"]:
            given[0] = given[0] + 0.5 if given[0] is not None else 0.5
        if how == "keyword":
            kw |= dict(zip(parameters(fun, len(args)), (
                10.0**a if "gaussian" in fun else a for a in given)))
        else:
            kw["extra_args"] = given

    def go():
        f = (functions.on_mesh(camel(fun), places.mesh, **kw) if mesh
             else functions.make(camel(fun), L, **kw))
        return bool(f.name) and np.isfinite(np.asarray(f.coefficients)).all()
    return {"kind": "construction", "case": case, "how": how} | outcome(go)


def constructions(places, rng, cases, n):
    # the regions with which the function can be constructed at all
    fits = {(x["case"]["fun"], x["case"]["region"]) for x in cases
            if x["verdict"] == "accepted"}
    def at(c):
        return c["fun"], c["region"], tuple(c["args"]), c["given"], c["whole"]
    verdicts = {at(x["case"]): x["verdict"] for x in cases}
    by = {}
    for case in cases:
        c, verdict = case["case"], case["verdict"]
        length = len(c["args"])
        arity = {"spherical_harmonic": 2, "ridgelets": 4}.get(c["fun"])
        if arity is None:
            arity = (0 if c["fun"] in WITHOUT else len(PARAMETERS.get(
                c["fun"], ["SNR"] if "noise" in c["fun"] else [0, 0, 0])))
        right = length == arity and c["given"]
        full = right and arity > 0 and c["whole"]
        if NONE in c["args"]:
            if full:
                by.setdefault((c["fun"], "keyword", verdict), []).append(c)
            continue
        # every single thing that can be wrong is a group of its own
        wrong = ([] if (c["fun"], c["region"]) in fits else ["region"]) + (
            [] if c["whole"] else ["whole"]) + (
            [] if not c["given"] else ["few"] if length < arity
            else ["many"] if length > arity or not arity else [])
        group = ("right" if full else "other" if len(wrong) > 1
                 else "".join(wrong) or "none")
        by.setdefault((c["fun"], group, verdict), []).append(c)
        if full:
            by.setdefault((c["fun"], "keyword", verdict), []).append(c)
            # at the edge of what an argument may be
            for i, step in itertools.product(range(length), (-1, 1)):
                args = [*c["args"]]
                args[i] += step
                if verdicts.get(at(c | {"args": args}), verdict) != verdict:
                    by.setdefault((c["fun"], f"edge {i} {step}", verdict), []).append(c)
    for (_fun, group, _), cs in sorted(by.items()):
        few = group not in ("right", "keyword")
        chosen = lib.sample(rng, cs, n // 6 if "edge" in group else n // 3 if few else n)
        if "edge" in group:
            chosen.append(max(cs, key=lambda c: c["args"]))
        for c in chosen:
            for how in (("extra", "keyword") if "edge" in group else
                        ("keyword",) if group == "keyword" else ("extra",)):
                yield construction(places, c, how)


WITHOUT = {"africa", "dirac_delta", "earth", "identity", "slepian_africa",
           "slepian_dirac_delta", "slepian_identity", "slepian_south_america",
           "south_america", "wmap", "mesh_field", "mesh_slepian_field"}


def bandlimits(places):
    """Bandlimits and numbers of basis functions of at least one."""
    for size in (-1, 0, 2):
        for name in (*functions.HARMONIC, "Slepian", "SlepianIdentity"):
            kw = {"region": places.regions["polar"]} if "Slepian" in name else {}
            if "Wavelet" in name or name == "Ridgelets":
                kw |= {"B": 2, "j_min": 0}
            if name == "SphericalHarmonic":
                kw = {"ell": 0, "m": 0}
            yield {"kind": "size", "size": size, "of": name} | outcome(
                lambda: functions.make(name, size, **kw).name)
        spaces = lib.get("sleplet.slepian")
        made = {"cap": lambda: spaces.SlepianPolarCap(size, store.rad(40)),
                "box": lambda: spaces.SlepianLimitLatLon(size, theta_max=store.rad(40)),
                "mesh": lambda: functions.mesh(size)}
        for name, fn in made.items():
            yield {"kind": "size", "size": size, "of": name} | outcome(
                lambda: fn() is not None)


def orders(scratch):
    """Polar caps of one order, from nothing and with the results of all orders."""
    cap = lib.get("sleplet.slepian", "SlepianPolarCap")
    for stored in (False, True):
        store.use_dir(scratch / f"orders {stored}")
        if stored:
            cap(L, store.rad(40))
        for order in (-5, -4, -3, -1, 0, 2, 3, 4, 5, np.int64(4), -np.arange(L + 1)):
            for angle in (0, 40):
                def go():
                    s = cap(L, store.rad(angle), order=order)
                    return np.isfinite(s.eigenvalues).all()
                yield {"kind": "order", "L": L, "theta_max": angle, "stored": stored,
                       "order": int(np.max(np.abs(order)))} | outcome(go)


def regions(rng, n):
    Region = lib.get("sleplet.slepian", "Region")
    values = {"theta_min": [-1, 0, 10, 20], "theta_max": [30, 90, 180, 181],
              "phi_min": [-1, 0, 10], "phi_max": [90, 359, 360, 361]}
    for i in range(n):
        a = {k: rng.choice(v) for k, v in values.items()}
        if rng.random() < 0.5:
            usual = {"theta_min": 0, "theta_max": 180, "phi_min": 0, "phi_max": 360}
            keep = rng.choice(list(values))
            a = usual | {keep: a[keep]} if i % 4 else usual
        mask = rng.random() < 0.3
        kw = {k: store.rad(v) for k, v in a.items()} | ({"mask_name": "africa"} if mask else {})
        yield {"kind": "region", "angles": a, "mask": mask} | outcome(
            lambda: Region(**kw) is not None)


def meshes():
    for name in ("cube", "teapot", "sphere", "", "Cube", "cube.ply", "homer"):
        yield {"kind": "name", "name": name, "known": name in ("cube", "teapot", "homer")
               } | outcome(lambda: functions.mesh(4, name) is not None)


def masks():
    """Masks which are known, and which are not and have no file either."""
    Region = lib.get("sleplet.slepian", "Region")
    mask = lib.get("sleplet._mask_methods", "create_mask_region")
    choose = lib.get("sleplet.slepian_methods", "choose_slepian_method")
    for name in ("africa", "south_america", "Africa", "south_africa", "africa_L4",
                 "antarctica", "america", "south america", "slepian_masks_africa"):
        for fn, size in ((mask, L), (choose, 2)):
            yield {"kind": "name", "name": name, "known": name in ("africa", "south_america")
                   } | outcome(lambda: fn(size, Region(mask_name=name)) is not None)


def decompositions(places):
    forward = lib.get("sleplet.slepian_methods", "slepian_forward")
    choose = lib.get("sleplet.slepian_methods", "choose_slepian_method")
    s = choose(L, places.regions["polar"])
    t, p = sphere.mwss_grid(L)
    flm, f = np.ones(L * L, dtype=complex), np.ones((len(t), len(p)), dtype=complex)
    signals = [{}, {"flm": flm}, {"f": f}, {"flm": flm, "f": f},
               {"f": f, "mask": np.ones((len(t), len(p)))}]
    for given in signals:
        for count in (1, int(s.N), L * L + 1):
            yield {"kind": "decomposition", "signals": len(given), "rank": count - 1,
                   "limit": L * L} | outcome(lambda: np.isfinite(
                       forward(L, s, n_coeffs=count, **given)).all())
    mforward = lib.get("sleplet.slepian_methods", "slepian_mesh_forward")
    ms = lib.get("sleplet.meshes", "MeshSlepian")(places.mesh)
    u = np.ones(len(places.mesh.vertices))
    for given in ({}, {"u": u}, {"u_i": np.ones(K)}, {"u": u, "mask": True}):
        for count in (1, int(ms.N), K + 1):
            yield {"kind": "decomposition", "signals": len(given), "rank": count - 1,
                   "limit": K} | outcome(lambda: np.isfinite(
                       mforward(ms, n_coeffs=count, **given)).all())


def run(ctx):
    rng = ctx.rng
    ctx.model("ArgumentCases", cfg())
    ctx.model("ArgumentCases", cfg(loose="TRUE"), expect_violation=True)
    cases = ctx.cases("ArgumentCases", cfg(emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    functions.continents(L)
    places = Places()
    events = []
    with ctx.unit("constructions"):
        events += constructions(places, rng, cases, 6 if ctx.quick else 120)
    with ctx.unit("sizes"):
        events += bandlimits(places)
    with ctx.unit("orders"):
        events += orders(ctx.scratch)
    store.use_dir(ctx.scratch / "d")
    with ctx.unit("regions"):
        events += regions(rng, 80 if ctx.quick else 600)
    with ctx.unit("meshes"):
        events += meshes()
    with ctx.unit("masks"):
        events += masks()
    with ctx.unit("decompositions"):
        events += decompositions(places)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("ArgumentTrace", events)
