"""P06: regions from parameters and from the environment."""

import os

import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
CFG = """SPECIFICATION Spec
CONSTANTS Thetas = {{{thetas}}}
Phis = {{{phis}}}
Gaps = {{{gaps}}}
Masks = {{{masks}}}
Kind = "{kind}"
INVARIANTS Total GapOnlyPolar MaskLast NothingSet OutsideRejected Emit
CHECK_DEADLOCK FALSE
"""
UNSET = 9000000
VARS = {"theta_min": "THETA_MIN", "theta_max": "THETA_MAX", "phi_min": "PHI_MIN",
        "phi_max": "PHI_MAX"}
ANGLES = tuple(VARS)


def cfg(kind, thetas, phis, gaps, masks):
    def join(xs):
        return ", ".join(xs if isinstance(xs[0], str) else map(str, xs))
    return CFG.format(kind=kind, thetas=join([t + 2000 for t in thetas]),
                      phis=join([p + 2000 for p in phis]), gaps=join(gaps),
                      masks=join([f'"{m}"' for m in masks]))


def rad(v):
    return float(np.deg2rad(v / 1000))


def back(x):
    return lib.q(np.rad2deg(x), 1000)


def seen(region):
    return {"outcome": "ok", "type": region._region_type, "name": region._name_ending,
            "params": {a: back(getattr(region, a)) for a in ANGLES}
            | {"gap": bool(region.gap), "mask": str(region.mask_name)}}


def failed(e):
    return {"outcome": "error", "exc": f"{lib.exc_name(e)}: {e}"[:200]}


def make(given, *, omit=False):
    Region = lib.get("sleplet.slepian", "Region")
    kw = {a: rad(given[a]) for a in ANGLES} | {"gap": given["gap"],
                                               "mask_name": given["mask"]}
    if omit:
        d = {"theta_min": 0, "theta_max": 180000, "phi_min": 0, "phi_max": 360000,
             "gap": False, "mask": ""}
        kw = {k: v for k, v in kw.items()
              if given["mask" if k == "mask_name" else k] != d.get(
                  "mask" if k == "mask_name" else k)}
    return Region(**kw)


def region_event(given, omit):
    out = {"kind": "region", "given": given, "omit": omit}
    try:
        return out | seen(make(given, omit=omit))
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return out | failed(e)


def edge_event(angle, side, nudge):
    """A box with one angle a little off the least or greatest which is allowed."""
    full = {"theta_min": 0.0, "theta_max": np.pi, "phi_min": 0.0, "phi_max": 2 * np.pi}
    v = {"low": 0.0, "high": full[angle.replace("min", "max")]}[side]
    # of the other angle of the pair, such that the box is not empty
    pair = angle.replace("max", "min") if "max" in angle else angle.replace("min", "max")
    full[pair] = 1.0
    full[angle] = v + nudge * 1e-9 if nudge else v
    out = {"kind": "edge", "angle": angle, "side": side, "nudge": nudge}
    try:
        lib.get("sleplet.slepian", "Region")(**full)
        return out | {"outcome": "ok"}
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return out | failed(e)


def sweeps(rng):
    """The names of regions which differ in one whole degree."""
    Region = lib.get("sleplet.slepian", "Region")
    box = {"theta_min": rng.randrange(1, 20), "theta_max": rng.randrange(160, 179),
           "phi_min": rng.randrange(1, 20), "phi_max": rng.randrange(300, 359)}
    for of in ("cap", "gap", *ANGLES):
        top = 359 if "phi" in of else 179
        base = {} if of in ("cap", "gap") else box
        angle = of if base else "theta_max"
        low, high = 1, top
        if base:
            low = box[of.replace("max", "min")] + 1 if "max" in of else 1
            high = box[of.replace("min", "max")] - 1 if "min" in of else top
        names = []
        for d in range(low, high + 1):
            kw = {k: float(np.deg2rad(v)) for k, v in (base | {angle: d}).items()}
            try:
                names.append(Region(**kw, gap=of == "gap")._name_ending)
            except Exception as e:  # noqa: BLE001
                yield {"kind": "sweep", "of": of, "degrees": d, "names": [],
                       **failed(e)}
                break
        else:
            yield {"kind": "sweep", "of": of, "degrees": high - low + 1, "names": names,
                   "outcome": "ok"}


def env_event(given):
    for a, v in VARS.items():
        os.environ.pop(v, None)
        if given[a] != UNSET:
            os.environ[v] = str(given[a] // 1000)
    for k, v in (("gap", "POLAR_GAP"), ("mask", "SLEPIAN_MASK")):
        os.environ.pop(v, None)
        if given[k] != "unset":
            os.environ[v] = given[k]
    out = {"kind": "env", "given": given}
    try:
        f = lib.get("sleplet._mask_methods", "create_default_region")
        return out | seen(f())
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return out | failed(e)
    finally:
        for v in [*VARS.values(), "POLAR_GAP", "SLEPIAN_MASK"]:
            os.environ.pop(v, None)


def slepian_event(given, L, where, masks):
    store.use_dir(where)
    store.put_masks(masks)
    region = make(given)
    out = {"kind": "slepian", "given": given, "L": L}
    try:
        s = lib.get("sleplet.slepian_methods", "choose_slepian_method")(L, region)
        got = seen(s.region)
        # the region of the solver has the parameters which matter only
        kind = got["type"]
        keep = {"polar": ("theta_max", "gap"), "lim_lat_lon": ANGLES,
                "arbitrary": ("mask",)}.get(kind, ANGLES)
        got["params"] = {k: got["params"][k] for k in keep}
        return out | got | {"class": type(s).__name__}
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return out | failed(e) | {"class": ""}


def run(ctx):
    rng = ctx.rng
    thetas = [-1, 0, 1, 45000, 179999, 180000, 180001]
    phis = [-1, 0, 1, 90000, 359999, 360000, 360001]
    deg = [rng.randrange(2, 179) * 1000 for _ in range(1 if ctx.quick else 5)]
    lon = [rng.randrange(2, 359) * 1000 for _ in range(1 if ctx.quick else 5)]
    masks = ["", "south_america", "vx", "Vx_L2 b"]
    cases = ctx.cases("RegionCases", cfg(
        "region", thetas + deg, phis + lon, ["TRUE", "FALSE"], masks))
    envs = ctx.cases("RegionCases", cfg(
        "env", [UNSET, 0, 40000, 180000, 181000, *deg],
        [UNSET, 0, 60000, 360000, -1000, *lon],
        [f'"{x}"' for x in ("unset", "true", "True", "TRUE", "false", "1", "")],
        ["unset", "", "vx", "Africa", "vX_2"]))
    events = []
    with ctx.unit("regions"):
        for c in lib.sample(rng, cases, 5000 if ctx.quick else 10**9):
            events.append(region_event(c, rng.random() < 0.5))
        # random angles of full precision
        for _ in range(200 if ctx.quick else 3000):
            c = {a: rng.choice([rng.randrange(-1000, 361000 if "phi" in a else 181000),
                                {"theta_min": 0, "theta_max": 180000, "phi_min": 0,
                                 "phi_max": 360000}[a]]) for a in ANGLES}
            c |= {"gap": rng.random() < 0.5, "mask": rng.choice(masks)}
            events.append(region_event(c, rng.random() < 0.5))
    with ctx.unit("edges"):
        for angle in ANGLES:
            for side in ("low", "high"):
                if (angle[-3:], side) in (("min", "high"), ("max", "low")):
                    continue    # nothing is between that and the other angle
                for size in (1, 40, 900, 20000, 10**6, 10**8):
                    events += [edge_event(angle, side, n) for n in (-size, 0, size)]
    with ctx.unit("every degree"):
        events += list(sweeps(rng))
    with ctx.unit("environment"):
        for c in lib.sample(rng, envs, 3000 if ctx.quick else 40000):
            events.append(env_event(c))
    with ctx.unit("solvers"):
        lib.get("sleplet.slepian_methods", "choose_slepian_method")
        jobs = []
        for _ in range(40 if ctx.quick else 250):
            t = sorted(rng.sample(range(0, 181), 2))
            p = sorted(rng.sample(range(0, 361), 2))
            k = rng.choice(["polar", "box", "mask"])
            c = {"theta_min": 0, "theta_max": 180000, "phi_min": 0, "phi_max": 360000,
                 "gap": False, "mask": rng.choice(["", "vx"])}
            if k == "polar":
                c |= {"theta_max": rng.randrange(5, 175) * 1000, "gap": rng.random() < .5}
            elif k == "box":
                c |= {"theta_min": t[0] * 1000, "theta_max": t[1] * 1000,
                      "phi_min": p[0] * 1000, "phi_max": p[1] * 1000}
                c["phi_max"] -= 1000 * (t[0] == 0 and p == [0, 360])
            else:
                c["mask"] = "vx"
            L = rng.choice([2, 3])
            m = sphere.blob_mask(2 * L, np.random.default_rng(rng.randrange(10**6)))
            jobs.append((slepian_event, c, L, ctx.scratch / f"s-{len(jobs)}",
                         [("vx", m)]))
        for job, r in zip(jobs, lib.parallel(jobs), strict=True):
            e = ctx.value(f"{job[1]}", r)
            if e is not None:
                events.append(e)
    for i, e in enumerate(events):
        e["trace"] = i
    rng.shuffle(events)
    ctx.events = events
    return ctx.judge("RegionTrace", events)
