"""P01: Slepian functions solve the concentration problem of their region."""

import lib
import numpy as np
import sphere

SCALE, TOL = 10**6, 8
MODEL = """SPECIFICATION Spec
INVARIANTS Hermitian Eigenpairs Concentrated
CHECK_DEADLOCK FALSE
"""


def basis_event(kind, L, reg, s, rule, shannon, **more):
    vec = np.asarray(s.eigenvectors)
    return {
        "kind": kind, "L": L, "region": reg, "scale": SCALE, "tol": TOL,
        "N": int(s.N), "shannon": lib.q(shannon, SCALE),
        "ev": lib.qv(s.eigenvalues, SCALE),
        "orth": [lib.qcv(r, SCALE) for r in gram_or_empty(vec, L, sphere.sphere_rule(L))],
        "reg": [lib.qcv(r, SCALE) for r in gram_or_empty(vec, L, rule)],
        **more,
    }


def gram_or_empty(vec, L, rule):
    if vec.ndim != 2 or vec.shape[1] != L * L:
        return []
    return sphere.gram(vec, L, rule)


def area(reg):
    if reg["type"] == "polar":
        return (2 if reg.get("gap") else 1) * 2 * np.pi * (1 - np.cos(reg["theta_max"]))
    return (reg["phi_max"] - reg["phi_min"]) * (
        np.cos(reg["theta_min"]) - np.cos(reg["theta_max"])
    )


def run(ctx):
    ctx.model("EigenBasis", MODEL)
    rng = np.random.default_rng(ctx.seed)
    deg = np.deg2rad
    events = []

    Polar = lib.get("sleplet.slepian", "SlepianPolarCap")
    Box = lib.get("sleplet.slepian", "SlepianLimitLatLon")
    Mask = lib.get("sleplet.slepian", "SlepianArbitrary")
    Region = lib.get("sleplet.slepian", "Region")
    choose = lib.get("sleplet.slepian_methods", "choose_slepian_method")

    polar = [(6, 40, False), (5, 60, True), (4, 115, False), (2, 30, True), (3, 90, False),
             (3, 1, False), (4, 5, False), (4, 4, True), (3, 175, False), (1, 60, False),
             (11, 62, False), (9, 33, True)]
    boxes = [(5, 20, 70, 30, 150), (4, 0, 180, 0, 100), (3, 45, 180, 0, 360),
             (4, 80, 100, 200, 360), (2, 10, 170, 90, 91), (3, 130, 165, 5, 355),
             (1, 30, 80, 10, 200), (8, 15, 120, 100, 300), (3, 120, 180, 0, 30)]
    for _ in range(8 if ctx.quick else 30):
        L = int(rng.integers(1, 7 if ctx.quick else 10))
        gap = bool(rng.integers(2))
        polar.append((L, float(rng.uniform(1, 88 if gap else 178)), gap))
        t = sorted(rng.uniform(0, 180, 2))
        p = sorted(rng.uniform(0, 360, 2))
        boxes.append((int(rng.integers(2, 6 if ctx.quick else 8)), *t, *p))
    if not ctx.quick:
        polar += [(17, 25, False), (12, 50, True)]

    n = 0
    for L, tm, gap in polar:
        with ctx.unit(f"polar L={L} {tm} {gap}"):
            n += 1
            reg = {"type": "polar", "theta_max": float(deg(tm)), "gap": gap}
            some = {0, L - 1, -(L - 1), int(rng.integers(-(L - 1), L))}
            # each order alone, before and after the whole family is saved
            alone = {m: Polar(L, deg(tm), gap=gap, order=m) for m in some}
            s = Polar(L, deg(tm), gap=gap)
            rule = sphere.region_rule(L, reg)
            shan = area(reg) * L * L / (4 * np.pi)
            events.append(basis_event("basis", L, reg, s, rule, shan, trace=n))
            orders = [int(x) for x in np.atleast_1d(s.order)]
            events.append({
                "kind": "orders", "L": L, "trace": n, "orders": orders,
                "ev": lib.qv(s.eigenvalues, SCALE),
                "support": [sphere.support_orders(v, L) for v in s.eigenvectors],
            })
            for m, o in [*alone.items()] + [
                (m, Polar(L, deg(tm), gap=gap, order=m)) for m in some
            ]:
                events.append(basis_event(
                    "one_order", L, reg, o, rule, shan, trace=n, m=m,
                    support=[sphere.support_orders(v, L) for v in o.eigenvectors],
                ))
    for L, *a in boxes:
        with ctx.unit(f"box L={L} {a}"):
            n += 1
            keys = ("theta_min", "theta_max", "phi_min", "phi_max")
            ang = dict(zip(keys, [float(deg(x)) for x in a], strict=True))
            reg = {"type": "lim_lat_lon", **ang}
            s = Box(L, **ang)
            events.append(basis_event(
                "basis", L, reg, s, sphere.region_rule(L, reg),
                area(reg) * L * L / (4 * np.pi), trace=n,
            ))
    for L in [3, 4, 2, 1, 6, 7, 8] if ctx.quick else [1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 11]:
        with ctx.unit(f"mask L={L}"):
            n += 1
            name = f"blob{n}"
            mask = sphere.blob_mask(2 * L, rng)
            sphere.save_mask(name, mask)
            s = Mask(L, name)
            rule = sphere.mask_rule(mask)
            shan = rule[2].sum() * L * L / (4 * np.pi)
            # over the sphere the functions are those of the mask of everything
            events.append(basis_event(
                "basis", L, {"type": "arbitrary", "mask": name}, s, rule, shan, trace=n,
            ))
            c = choose(L, Region(mask_name=name))
            events.append({
                "kind": "solver", "trace": n, "expected": "SlepianArbitrary",
                "solver": type(c).__name__, "given": [name],
                "region": [c.mask_name], "N": int(c.N), "expected_N": int(s.N),
            })
    for given in (
        {"theta_max": deg(35)}, {"theta_max": deg(50), "gap": True},
        {"theta_min": deg(20), "theta_max": deg(60), "phi_min": deg(10),
         "phi_max": deg(80)},
        {"phi_max": deg(77)}, {"theta_min": deg(77)}, {"phi_min": deg(77)},
    ):
        with ctx.unit(f"choose {sorted(given)}"):
            n += 1
            L = 3
            r = Region(**given)
            c = choose(L, r)
            isbox = "phi_max" in given or "theta_min" in given or "phi_min" in given
            names = (
                ("theta_min", "theta_max", "phi_min", "phi_max") if isbox
                else ("theta_max", "gap")
            )
            full = {"theta_min": 0, "theta_max": np.pi, "phi_min": 0,
                    "phi_max": 2 * np.pi, "gap": False} | given
            a = area({"type": "lim_lat_lon" if isbox else "polar", **full})
            events.append({
                "kind": "solver", "trace": n,
                "expected": "SlepianLimitLatLon" if isbox else "SlepianPolarCap",
                "solver": type(c).__name__,
                "given": lib.qv([full[k] for k in names], SCALE),
                "region": lib.qv([getattr(c, k) for k in names], SCALE),
                "N": int(c.N), "expected_N": round(a * L * L / (4 * np.pi)),
            })
    ctx.events = events
    return ctx.judge("EigenTrace", events)
