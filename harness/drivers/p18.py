"""P18: plots of the sphere."""

import figures
import functions
import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, UNIT, HIDE = 20000, 10000, figures.HIDDEN
TRIPLES = [(0, 0), (3, 4), (-3, 4), (5, -12), (-8, -6), (0, 2), (-1, 0), (7, 0), (4, 3),
           (9, 12), (-5, 12), (0, -3)]
PARTS = {"real": np.real, "imag": np.imag, "abs": np.abs,
         "sum": lambda z: np.real(z) + np.imag(z)}


def resolution(L):
    e = next((e for n, e in ((2, 6), (4, 5), (8, 4), (128, 3), (512, 2), (1024, 1))
              if n > L), 0)
    return L * 2**e


def cfg(first="FALSE", opened="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS HideFirst = {first}
Open = {opened}
Emitting = {emit}
INVARIANTS AsDeclared Seamless InRange OutsideHidden Monotone Reached Within Emit
CHECK_DEADLOCK FALSE
"""


def shown(fn):
    """The figure of a plot, in a fork as the native transforms may leave."""
    def go():
        with figures.recorded() as out:
            fn()
        (fig, how), = out
        s = fig.data[0]
        bar = s.colorbar.to_plotly_json()
        return {
            "xyz": [np.asarray(v, dtype=float) for v in (s.x, s.y, s.z)],
            "colour": np.asarray(s.surfacecolor, dtype=float),
            "range": [float(v) for v in (s.cmin, s.cmid, s.cmax)],
            "tick": [float(bar.get(k) or 0) for k in ("tick0", "dtick")],
            "filename": how["config"]["toImageButtonOptions"]["filename"],
            "notes": [[a["x"], a["y"], a["z"]] for a in fig.layout.scene.annotations or ()],
        }
    return go


def outcome(fn, *args):
    try:
        return "ok", fn(*args), ""
    except lib.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        return "error", None, f"{lib.exc_name(e)}: {e}"[:200]


class Plotter:
    def __init__(self, rng):
        self.rng = rng
        self.plot = lib.get("sleplet.plotting", "PlotSphere")
        self.count = 0

    def region(self, mask):
        """A region of the samples, by a name of its own."""
        if mask is None:
            return None
        self.count += 1
        name = f"plot{self.count}"
        sphere.save_mask(name, np.asarray(mask))
        return lib.get("sleplet.slepian", "Region")(mask_name=name)

    def figure(self, f, L, part, norm, mask, upsample, amplitude=None, reality=False,
               spin=0):
        rng = self.rng
        notes = [{"x": float(rng.randint(-3, 3)), "y": 0.5, "z": -1.0, "text": "here"}
                 for _ in range(rng.choice([0, 0, 1, 2]))]
        f = np.array(f)
        before = f.copy()
        region = self.region(mask)
        how, got, why = outcome(shown(lambda: self.plot(
            f, L, "field", amplitude=amplitude, annotations=notes, normalise=norm,
            plot_type=part, reality=reality, region=region, spin=spin,
            upsample=upsample).execute()))
        e = {"outcome": how, "why": why, "L": L, "part": part, "norm": norm, "name": "field",
             "upsample": upsample, "hidden": HIDE, "amplitude": [],
             "reality": reality, "spin": spin,
             "kept": bool(np.array_equal(f, before))}
        if how != "ok":
            return e, None, 1
        R = resolution(L) if upsample else L
        n = 2 * R
        k = np.arange(n + 1) * np.pi / R
        at = [(rng.randrange(R + 1), rng.randrange(n + 1)) for _ in range(12)]
        at += [(0, 0), (R, n), (R // 2, n)]
        ok = all(v.shape == (R + 1, n + 1) for v in got["xyz"])
        at = [[r + 1, c + 1, [lib.q(v[r, c], UNIT) if ok else 10**6 for v in got["xyz"]]]
              for r, c in at]
        return e | {"filename": got["filename"], "annotations": [
            [lib.q(a[k], UNIT) for k in "xyz"] for a in notes],
            "notes": [lib.qv(a, UNIT) for a in got["notes"]], "unit": UNIT,
            "cos": lib.qv(np.cos(k), UNIT), "sin": lib.qv(np.sin(k), UNIT), "at": at,
            "figure": got, "R": R}, got, R

    def finish(self, e, scale):
        got = e.pop("figure")
        lo, mid, hi = got["range"]
        tick0, dtick = got["tick"]
        return e | {"cmin": lib.q(lo, scale), "cmid": lib.q(mid, scale),
                    "cmax": lib.q(hi, scale), "tick0": lib.q(tick0, scale),
                    "dtick": lib.q(dtick, scale), "shape": list(got["colour"].shape)}

    def exact(self, case, L, amplitude=None):
        """A field of whole numbers, not upsampled: the specification draws it."""
        f = np.array([[complex(v[0], v[1]) for v in row] for row in case["f"]])
        mask = case["mask"]
        whole = all(all(r) for r in mask)
        # each of these matters by itself
        e, got, _ = self.figure(f, L, case["part"], case["norm"], None if whole else mask,
                                upsample=False, amplitude=amplitude)
        e |= {"kind": "exact", "f": case["f"], "mask": mask, "scale": 1000, "tol": 2}
        if got is None:
            return e
        if amplitude is not None:
            e["amplitude"] = [lib.q(amplitude, 1000)]
        return self.finish(e, 1000) | {"got": figures.colours(got["colour"], 1000)}

    def sampled(self, field, c, L, part, norm, mask, upsample, amplitude, reality, spin,
                samples):
        """Any field: the samples are given to the specification."""
        R = resolution(L) if upsample else L
        e, got, _ = self.figure(field, L, part, norm, mask, upsample, amplitude, reality,
                                spin)
        e |= {"kind": "sampled", "scale": SCALE, "tol": 25}
        if got is None:
            return e
        z = field if not upsample else values(c, L, R, spin)
        p = PARTS[part](z)
        s = SCALE / (np.abs(z).max() or 1)
        show = got["colour"]
        if show.shape != (R + 1, 2 * R + 1):
            show = np.full((R + 1, 2 * R + 1), np.inf)
        rr = [self.rng.randrange(R + 1) for _ in range(samples)] + [0, R, R // 2]
        cc = [self.rng.randrange(2 * R + 1) for _ in range(samples)] + [0, 2 * R, 2 * R]
        unit = SCALE if norm else s
        want = []
        for r, k in zip(rr, cc, strict=True):
            v = z[r, k % (2 * R)]
            want.append({"hidden": mask is not None and not mask[r][k % (2 * R)],
                         "v": [lib.q(x, s) for x in (v.real, v.imag, abs(v))]})
        if amplitude is not None:
            e["amplitude"] = [lib.q(amplitude, s)]
        lo, hi = lib.q(p.min(), s), lib.q(p.max(), s)
        if norm and hi - lo < 2000:
            want, rr, cc = [], [], []
        return self.finish(e, unit) | {
            "want": want, "got": figures.colours(show[rr, cc], unit) if rr else [],
            "lo": lo, "hi": hi}


CACHE = {}


def values(c, L, R, spin=0):
    """The field of some coefficients at the samples of another bandlimit."""
    if spin:
        import pyssht as ssht

        return ssht.inverse(np.pad(c, (0, R * R - L * L)).astype(complex), R,
                            Method="MWSS", Spin=spin)
    if (L, R) not in CACHE:
        t, p = sphere.mwss_grid(R)
        T, P = np.meshgrid(t, p, indexing="ij")
        CACHE[L, R] = sphere.ylm_matrix(L, T.ravel(), P.ravel()).reshape(L * L, *T.shape)
    return np.tensordot(c, CACHE[L, R], 1)


def coefficients(nrng, L, reality, spin=0):
    c = nrng.standard_normal(L * L) + 1j * nrng.standard_normal(L * L)
    for ell in range(L):
        for m in range(ell + 1):
            i, j = ell * ell + ell + m, ell * ell + ell - m
            if ell < abs(spin):
                c[i] = c[j] = 0
            if reality:
                c[j] = (-1) ** m * np.conj(c[i]) if m else c[i].real
    return c * 10.0 ** nrng.integers(-3, 4)


def exacts(plotter, rng, cases, n):
    for i, c in enumerate(lib.sample(rng, cases, n)):
        yield plotter.exact(c, 1, rng.choice([2.5, 0.0]) if i % 5 == 0 else None)
    for i in range(n // 2):
        L = rng.choice([2, 3, 5])
        pick = TRIPLES if i % 7 else [rng.choice(TRIPLES)]
        f = [[[*v, round(abs(complex(*v)))] for v in rng.choices(pick, k=2 * L)]
             for _ in range(L + 1)]
        mask = [[rng.random() < 0.6 for _ in range(2 * L)] for _ in range(L + 1)]
        if rng.random() < 0.3:
            mask = [[True] * (2 * L)] * (L + 1)
        yield plotter.exact(
            {"f": f, "mask": mask, "part": rng.choice(list(PARTS)),
             "norm": rng.random() < 0.5}, L,
            rng.choice([0.5, 3.0, 40.0]) if rng.random() < 0.4 else None)


def samples(plotter, rng, n, top):
    nrng = np.random.default_rng(rng.randrange(2**31))
    for i in range(n):
        L = rng.choice([1, 2, 3, 4, 5, top]) if i % 9 else top
        upsample = i % 3 != 2
        reality = rng.random() < 0.4
        spin = rng.choice([-2, -1, 1, 2]) if not reality and L > 2 and i % 4 == 0 else 0
        R = resolution(L) if upsample else L
        c = coefficients(nrng, L, reality, spin)
        field = values(c, L, L, spin)
        if reality:
            field = field.real
        mask = None if rng.random() < 0.5 else sphere.blob_mask(R, nrng)
        yield plotter.sampled(
            field, c, L, rng.choice(list(PARTS)), rng.random() < 0.5, mask, upsample,
            float(nrng.uniform(0, 5)) if rng.random() < 0.3 else None, reality, spin, 24)


def smalls(rng, n):
    fn = lib.get("sleplet.plot_methods", "_normalise_function")
    for _ in range(n):
        f = [rng.randint(-9, 9) for _ in range(6)]
        if len(set(f)) == 1:
            continue
        size = 10.0 ** rng.choice([-300, -30, -12, -9, -8, -7, -3, 0, 5, 200])
        # changes which are small next to the values themselves
        base, step = rng.choice([(0, 1), (0, 1), (1, 1e-4), (-1, 1e-4), (1, 1e-3), (-1, 0.1)])
        g = fn((base + step * np.array(f).reshape(2, 3)) * size, normalise=True)
        yield {"kind": "small", "outcome": "ok", "f": f, "lo": min(f), "hi": max(f),
               "size": repr((size, base, step)), "scale": UNIT, "tol": 2, "got": lib.qv(np.ravel(g), UNIT),
               "least": lib.q(np.min(g), UNIT), "most": lib.q(np.max(g), UNIT)}


def amplitudes(rng, n):
    fn = lib.get("sleplet.plot_methods", "find_max_amplitude")
    for i in range(n):
        L = rng.choice([3, 4])
        if i % 4 == 3:
            name = rng.choice(["Slepian", "SlepianIdentity"])
            f = functions.make(name, L, region=functions.region("polar", rng))
            s = f.slepian
            c = np.asarray(f.coefficients)[:s.N] @ np.asarray(s.eigenvectors)[:s.N]
        else:
            name = rng.choice(["Ridgelets", "Ridgelets", *functions.HARMONIC])
            kw = functions.harmonic(name, L, rng)
            f = functions.make(name, L, **kw)
            c = np.asarray(f.coefficients)
        part, up = rng.choice(list(PARTS)), rng.random() < 0.6
        z = values(c, L, resolution(L) if up else L, f.spin)
        want = np.abs(PARTS[part](z)).max()
        s = SCALE / (np.abs(z).max() or 1)
        how, got, why = outcome(lambda: fn(f, plot_type=part, upsample=up))
        yield {"kind": "amplitude", "function": f.name, "part": part, "upsample": up,
               "outcome": how, "why": why, "want": lib.q(want, s), "tol": 5,
               "got": lib.q(got, s) if how == "ok" else 0}


def sizes(rng):
    plot = lib.get("sleplet.plotting", "PlotSphere")
    for shape in ((5, 8), (4, 7), (3, 4), (1, 1), (40,)):
        f = np.ones(shape)
        got = lib.Forked(lambda: shown(lambda: plot(f, 3, "field", upsample=False)
                                       .execute())() is not None).result(60)
        if got[0] == "skip":
            raise lib.Skip(got[1])
        yield {"kind": "wrong_size", "shape": list(shape), "why": str(got)[:150],
               "outcome": {"ok": "ok", "raised": "error"}.get(got[0], "died")}


def run(ctx):
    rng = ctx.rng
    ctx.model("SpherePlotCases", cfg())
    ctx.model("SpherePlotCases", cfg(first="TRUE"), expect_violation=True)
    ctx.model("SpherePlotCases", cfg(opened="TRUE"), expect_violation=True)
    cases = ctx.cases("SpherePlotCases", cfg(emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    functions.continents(4)
    functions.continents(3)
    events = []
    plotter = Plotter(rng)
    with ctx.unit("exact"):
        events += exacts(plotter, rng, cases, 200 if ctx.quick else 2000)
    with ctx.unit("sampled"):
        events += samples(plotter, rng, 90 if ctx.quick else 600, 9 if ctx.quick else 17)
    with ctx.unit("small"):
        events += smalls(rng, 120)
    with ctx.unit("amplitudes"):
        events += amplitudes(rng, 60 if ctx.quick else 400)
    with ctx.unit("sizes"):
        events += sizes(rng)
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("SpherePlotTrace", events)
