"""P02: saved results never change an answer."""

import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
CASES = """SPECIFICATION Spec
CONSTANTS NConfigs = {n}
NParts = {parts}
Depth = {depth}
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def families(ctx, masks):
    rng = ctx.rng
    b = (30, 90, 20, 100)
    fam = {
        "cap": [("polar", 3, 60), ("polar", 3, 60.4), ("polar", 3, 60, True),
                ("polar", 3, 59.7), ("polar", 3, 60.4, True), ("polar", 3, 59),
                ("polar", 3, 60.0005)],
        "cap_small": [("polar", 3, 20), ("polar", 4, 20), ("polar", 3, 21),
                      ("polar", 2, 20)],
        "cap_orders": [("polar", 4, 50), ("polar", 4, 50, False, 0),
                       ("polar", 4, 50, False, 2), ("polar", 4, 50, False, -2)],
        "gap_orders": [("polar", 3, 40, True), ("polar", 3, 40, False, 1),
                       ("polar", 3, 40, True, -1), ("polar", 3, 40)],
        "box": [("box", 2, *b)] + [
            ("box", 2, *[x + (0.3 if i == j else 0) for j, x in enumerate(b)])
            for i in range(4)
        ],
        "box_whole": [("box", 2, *b), ("box", 2, 31, 90, 20, 100),
                      ("box", 2, 30, 91, 20, 100), ("box", 2, 30, 90, 21, 100),
                      ("box", 2, 30, 90, 20, 101), ("box", 2, 20, 100, 30, 90),
                      ("box", 2, 29, 90, 20, 100)],
        "box_L": [("box", 2, 0, 60, 0, 30), ("box", 3, 0, 60, 0, 30),
                  ("box", 2, 60, 180, 0, 30)],
        "mask": [("mask", 2, "va"), ("mask", 2, "vb"), ("mask", 3, "va")],
        "mask_box": [("mask", 2, "va"), ("polar", 2, 60), ("box", 2, 0, 60, 0, 180)],
        "mesh": [("mesh", "cube", 8), ("mesh", "cube", 9), ("mesh", "teapot", 8)],
        "mesh_slepian": [("mesh_slepian", "cube", 8), ("mesh_slepian", "teapot", 8),
                         ("mesh_slepian", "cube", 10)],
        # neighbouring numbers of basis functions share a Shannon number
        "mesh_shannon": [("mesh_slepian", "cube", n) for n in (4, 5, 6)],
    }
    for i in range(4 if ctx.quick else 30):
        L = 2 if ctx.quick else rng.choice([2, 2, 3])
        t = sorted([rng.uniform(0, 180), rng.uniform(0, 180)])
        p = sorted([rng.uniform(0, 360), rng.uniform(0, 360)])
        a = [*t, *p]
        j = rng.randrange(4)
        n = list(a)
        n[j] = min(max(n[j] + rng.choice([0.05, -0.4, 0.01, 0.9, 0.001, 1e-5]), 0),
                   180 if j < 2 else 360)
        fam[f"box_{i}"] = [("box", L, *a), ("box", L, *n),
                           ("box", L, *[round(x) for x in a])]
        th = rng.uniform(5, 85)
        fam[f"cap_{i}"] = [
            ("polar", 3, th), ("polar", 3, th + rng.choice([0.05, 0.4, 0.001])),
            ("polar", 3, round(th)), ("polar", 3, th, True),
        ]
    return fam


def history(cfgs, ops, where, masks, separate):
    """One history, in this process or with a process for each computation."""
    store.use_dir(where)
    store.put_masks(masks)
    out, made = [], {}
    for o in ops:
        c = cfgs[o["cfg"] - 1]
        if o["op"] == "remove":
            mine = sorted(made.get(store.label(c), []))
            have = store.files()
            mine = [f for f in mine if f in have]
            if not mine:
                continue
            f = mine[(o["part"] - 1) % len(mine)]
            (store.data_dir() / f).unlink()
            # the file may hold part of others' results, which are then not saved
            gone = [k for k, fs in made.items() if f in fs]
            out += [{"kind": "remove", "cfg": k, "file": f} for k in gone]
            continue
        if separate:
            r = lib.Forked(store.compute, c).result()
            e = r[1] if r[0] == "ok" else {
                "outcome": r[0], **store.EMPTY, "cfg": store.label(c), "tol": 0,
                "wrote": [], "saves": False}
        else:
            e = store.compute(c)
        made.setdefault(store.label(c), set()).update(e["wrote"])
        seen = any(x["kind"] == "compute" and x["cfg"] == e["cfg"] for x in out)
        e["present"] = bool(seen or e["wrote"])
        out.append({"kind": "compute", **e})
    return out


def run(ctx):
    ctx.model("Store", store.store_cfg(runs=3 if ctx.quick else 4))
    ctx.model("Store", store.store_cfg(separate=False), expect_violation=True)
    ctx.model("Store", store.store_cfg(versions=2), expect_violation=True)
    cases = ctx.cases("StoreCases", CASES.format(n=3, parts=2, depth=4), flat=False)

    rng = np.random.default_rng(ctx.seed)
    masks = {}
    for name in ("va", "vb"):
        for L in (2, 3):
            masks[name] = masks.get(name, {}) | {2 * L: sphere.blob_mask(2 * L, rng)}
    # equal Shannon numbers, as a mask and its mirror image have the same area
    masks["vb"] = {R: m[:, ::-1].copy() for R, m in masks["va"].items()}
    flat = [(n, m) for n, d in masks.items() for m in d.values()]

    fam = families(ctx, masks)
    refs, jobs, seen = [], [], set()
    fams = {}
    for name, cfgs in fam.items():
        with ctx.unit(f"references of {name}"):
            new = [c for c in cfgs if store.label(c) not in seen]
            new = list({store.label(c): c for c in new}.values())
            refs += references(ctx, new, flat, len(refs))
            seen |= {store.label(c) for c in new}
            fams[name] = cfgs
    events = [dict(e, trace="references") for e in refs]
    n = 0
    for name, cfgs in fams.items():
        count = (3 if name[-1].isdigit() else 9) * (
            1 if ctx.quick else 4)
        picked = lib.sample(ctx.rng, cases, count)
        # both orders of each pair, twice: cold then warm
        pairs = [(i, j) for i in range(len(cfgs)) for j in range(len(cfgs)) if i < j]
        todo = [([cfgs[i], cfgs[j]], ops) for i, j in pairs
                for ops in ([1, 2, 1], [2, 1, 2])]
        todo = [(c, [{"op": "compute", "cfg": o, "part": 0} for o in ops])
                for c, ops in todo]
        for ops in picked:
            some = ctx.rng.sample(cfgs, min(3, len(cfgs)))
            while len(some) < 3:
                some.append(some[0])
            todo.append((some, ops))
        for cs, ops in todo:
            n += 1
            jobs.append((history, cs, ops, ctx.scratch / f"hist-{n}", flat, n % 4 == 0))
    # truncated eigenvectors with all the orders
    with ctx.unit("references of cap_truncated"):
        # of fewer and of more functions than the bandlimit
        for deg, gap in ((15, False), (70, True), (170, False)):
            big = [("polar", 17, deg, gap), ("polar", 17, deg, gap, 1),
                   ("polar", 17, deg, gap, -3)]
            events += [dict(e, trace="references")
                       for e in references(ctx, big, flat, 900 + deg)]
            ops = [{"op": "compute", "cfg": i, "part": 0} for i in (1, 2, 3, 1)]
            jobs.insert(0, (history, big, ops, ctx.scratch / f"hist-big{deg}", flat, False))
    for i, r in enumerate(lib.parallel(jobs)):
        h = ctx.value("history", r)
        if h is not None:
            events.append({"kind": "begin", "trace": f"history {i}"})
            events += [dict(e, trace=f"history {i}") for e in h]
    ctx.events = events
    return ctx.judge("StoreTrace", events)


def references(ctx, cfgs, masks, start):
    jobs = [
        (store.reference, c, ctx.scratch / f"ref-{start + i}", masks)
        for i, c in enumerate(cfgs)
    ]
    out = []
    for r in lib.parallel(jobs):
        v = ctx.value("reference", r)
        if v is None:
            raise lib.Skip("no reference")
        out.append({"kind": "reference", **v})
    return out
