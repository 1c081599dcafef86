"""P17: the command which plots on the sphere."""

import fractions
import os
import sys

import figures
import functions
import lib
import numpy as np
import sphere
import store
from drivers.p15 import camel
from drivers.p08 import ints  # noqa: F401

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL, HIDE = 20000, 25, figures.HIDDEN
TO = {"to_africa": (44, 87, 341), "to_south_america": (54, 108, 63)}
MAPS = ("earth", "south_america", "wmap")
SHOWN = {4: 64, 3: 96, 5: 80}                   # also 16, where nothing is added
LS = tuple(SHOWN)


def cfg(early="FALSE", nameless="FALSE", few="FALSE", emit="FALSE"):
    return f"""SPECIFICATION Spec
CONSTANTS EarlyView = {early}
Nameless = {nameless}
Few = {few}
Emitting = {emit}
INVARIANTS Ordered AsDeclared Safe Named Emit
CHECK_DEADLOCK FALSE
"""


def choose(kind, L, rng):
    """A function of the kind, with its extra arguments and default mask."""
    if kind == "delta":
        return "dirac_delta", None, "south_america"
    if kind == "slepian_delta":
        return "slepian_dirac_delta", None, rng.choice(["south_america", "africa"])
    if kind == "earth":
        return rng.choice([
            ("earth", None), ("noise_earth", [rng.choice([-10, 0, 10])]),
            ("axisymmetric_wavelet_coefficients_earth", [2, 0, rng.randrange(2)]),
        ]) + ("south_america",)
    if kind == "slepian":
        mask = rng.choice(["south_america", "africa"])
        return rng.choice([
            ("slepian", [rng.randrange(2)]), ("slepian", None), ("slepian_identity", None),
            (f"slepian_{mask}", None), (f"slepian_noise_{mask}", [5]),
            (f"slepian_wavelet_coefficients_{mask}", [2, 1, 0]),
            ("slepian_wavelets", [2, 1, rng.randrange(2)]),
        ]) + (mask,)
    ell = rng.randrange(L)
    return rng.choice([
        ("africa", None), ("south_america", None), ("wmap", None), ("identity", None),
        ("gaussian", [rng.randrange(-1, 2)]), ("gaussian", None),
        ("elongated_gaussian", [0, -1]), ("squashed_gaussian", [0, -1]),
        ("harmonic_gaussian", [0, 1]), ("spherical_harmonic", [ell, rng.randint(-ell, ell)]),
        ("axisymmetric_wavelets", [2, 0, rng.randrange(2)]),
        ("axisymmetric_wavelet_coefficients_africa", [2, 0, 1]),
        ("ridgelets", [2, 0, rng.randrange(-2, 3), 1]),
    ]) + (rng.choice(["south_america", "africa"]),)


def turned(c, L, alpha, beta, gamma):
    """Coefficients of the function turned about z, y and z again."""
    t, p = sphere.mwss_grid(2 * L)
    T, P = (x.ravel() for x in np.meshgrid(t[1:-1], p, indexing="ij"))
    x = np.array([np.sin(T) * np.cos(P), np.sin(T) * np.sin(P), np.cos(T)])

    def rz(a):
        return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    ry = np.array([[np.cos(beta), 0, np.sin(beta)], [0, 1, 0],
                   [-np.sin(beta), 0, np.cos(beta)]])
    y = (rz(alpha) @ ry @ rz(gamma)).T @ x
    back = sphere.ylm_matrix(L, np.arccos(np.clip(y[2], -1, 1)), np.arctan2(y[1], y[0]))
    return np.linalg.lstsq(sphere.ylm_matrix(L, T, P).T, back.T @ c, rcond=None)[0]


class Reference:
    """The pipeline, interpreted without the package's transforms."""

    def __init__(self, f, L):
        self.f, self.L = f, L
        self.basis = None
        if hasattr(f, "slepian"):
            self.n = int(f.slepian.N)
            self.basis = np.asarray(f.slepian.eigenvectors)[:self.n]
        self.c = np.asarray(f.coefficients)

    def nearest(self, o):
        t, p = sphere.mwss_grid(self.L)
        a, b = (o[k]["num"] / o[k]["den"] * np.pi for k in ("alpha", "beta"))
        return (p[np.argmax(np.cos(p - a))], t[np.argmin(np.abs(t - b))])

    def values(self, alpha, beta):
        y = sphere.ylm_matrix(self.L, np.array([beta]), np.array([alpha]))[:, 0]
        return y if self.basis is None else self.basis @ y

    def apply(self, op, o, g):
        if op in TO:
            self.c = turned(self.c, self.L, *np.deg2rad(TO[op]))
        elif op == "rotate":
            gamma = o["gamma"]["num"] / o["gamma"]["den"] * np.pi
            self.c = turned(self.c, self.L, *self.nearest(o), gamma)
        elif op == "translate":
            v = self.values(*self.nearest(o))
            self.c = self.c[:len(v)] * v
        elif op == "delta":
            self.c = self.values(*self.nearest(o)).conj()
        else:
            h = np.asarray(g.coefficients)
            if self.basis is not None:
                h = (self.basis.conj() @ h)[:self.n]
            self.c = h * self.c[:len(h)].conj()

    def field(self, R, c=None):
        c = self.c if c is None else np.asarray(c)
        spin = self.f.spin
        if self.basis is not None:
            c = c[:self.n] @ self.basis
        elif spin:
            import pyssht as ssht

            c = np.pad(c, (0, R * R - self.L**2)).astype(complex)
            return ssht.inverse(c, R, Method="MWSS", Spin=spin)
        return np.tensordot(c, grid_values(self.L, R), 1)


CACHE = {}


def grid_values(L, R):
    if (L, R) not in CACHE:
        t, p = sphere.mwss_grid(R)
        T, P = np.meshgrid(t, p, indexing="ij")
        CACHE[L, R] = sphere.ylm_matrix(L, T.ravel(), P.ravel()).reshape(L * L, *T.shape)
    return CACHE[L, R]


def pipeline(o):
    slepian = o["kind"].startswith("slepian")
    ops = []
    if o["method"] != "north":
        ops.append("delta" if o["method"] == "translate" and "delta" in o["kind"]
                   else o["method"])
    if o["conv"] != "none":
        ops.append("convolve")
    if not slepian and "earth" in (o["kind"], o["conv"]):
        ops.append("to_" + o["view"])
    return ops


PARTS = {"real": np.real, "imag": np.imag, "abs": np.abs,
         "sum": lambda z: np.real(z) + np.imag(z)}


# what is meant where an option is not given
DEFAULTS = {"bandlimit": 16, "alpha": 0.75, "beta": 0.125, "gamma": 0.0, "method": "north",
            "perspective": "south_america", "type": "real"}
SHORT = {"bandlimit": "L", "perspective": "p", "type": "t", "extra_args": "e"}


def command(o, fun, L, extra, noise, smoothing, rng):
    """The options in any order, long or short, and some of the usual ones omitted."""
    def number(f):
        return f["num"] / f["den"]
    options = {"bandlimit": L, "method": o["method"], "perspective": o["view"],
               "type": o["part"]}
    if o["method"] != "north":
        options |= {k: number(o[k]) for k in ("alpha", "beta", "gamma")}
    options = {k: v for k, v in options.items()
               if v != DEFAULTS[k] or rng.random() < 0.3}
    if extra is not None:
        options["extra_args"] = extra
    if o["conv"] != "none":
        options["convolve"] = o["conv"]
    options |= {k: v for k, v in (("noise", noise), ("smoothing", smoothing))
                if v is not None}
    flags = {"region": o["region"], "outline": not o["outline"],
             "unnormalise": o["unnormalise"], "unzeropad": o["unzeropad"]}
    out = []
    for k, v in rng.sample([*options.items()], len(options)):
        if rng.random() < 0.5:
            out.append([f"--{k}", *map(str, v)] if isinstance(v, list) else [f"--{k}={v}"])
        else:
            short = "-" + SHORT.get(k, k[0])
            out.append([short, *map(str, v)] if isinstance(v, list) else [f"{short}{v}"])
    short = {"unzeropad": "-z"}
    out += [[f"--{k}" if rng.random() < 0.5 else short.get(k, f"-{k[0]}")]
            for k, on in flags.items() if on]
    out = [x for part in rng.sample(out, len(out)) for x in part]
    # the extra arguments take all which follow
    return [fun, *out]


def call(argv):
    main = lib.get("sleplet._scripts.plotting_on_sphere", "main")
    old, err, sys.argv = sys.argv, sys.stderr, ["sphere", *argv]
    try:
        with figures.recorded() as out, open(os.devnull, "w") as sys.stderr:
            main()
        return "ok", "", out
    except lib.Skip:
        raise
    except SystemExit as e:
        return "exit", str(e.code), []
    except Exception as e:  # noqa: BLE001
        return "error", f"{lib.exc_name(e)}: {e}"[:200], []
    finally:
        sys.argv, sys.stderr = old, err


def run_command(o, L, rng, samples):
    fun, extra, mask = choose(o["kind"], L, rng)
    noise = rng.choice([-5, 0, 10]) if o["noise"] else None
    smoothing = rng.choice([None, 2]) if camel(fun) in functions.SMOOTHABLE else None
    os.environ["SLEPIAN_MASK"] = mask
    try:
        region = functions.region(mask) if o["region"] else None
        f = functions.make(camel(fun), L, extra_args=extra, region=region, noise=noise,
                           smoothing=smoothing)
        g = None if o["conv"] == "none" else functions.make(camel(o["conv"]), L)
        argv = command(o, fun, L, extra, noise, smoothing, rng)
        outcome, why, shown = call(argv)
    finally:
        os.environ.pop("SLEPIAN_MASK")
    e = {"kind": "run", "o": o, "L": L, "command": " ".join(argv), "mask": mask,
         "outcome": outcome, "why": why, "ops": pipeline(o), "figures": len(shown),
         "hidden": HIDE, "scale": SCALE, "tol": TOL}
    if outcome != "ok" or len(shown) != 1 or (o["kind"].startswith("slepian")
                                              and o["method"] == "rotate"):
        return e | {"figures": len(shown)} | ({} if len(shown) == 1 else {"ops": []})
    ref = Reference(f, L)
    for op in e["ops"]:
        ref.apply(op, o, g)
    (fig, how), = shown
    surface = fig.data[0]
    got = np.asarray(surface.surfacecolor, dtype=float)
    R = L if o["unzeropad"] else SHOWN[L]
    field = ref.field(R)
    if np.abs(field).max() < 1e-9:      # nothing but rounding
        field = 0 * field
    part = PARTS[o["part"]](field)
    inside = np.ones(part.shape, dtype=bool)
    if ref.basis is not None:
        inside = np.asarray(lib.get("sleplet._mask_methods", "create_mask_region")(
            R, f.region)).astype(bool)
    close = [*range(2 * R), 0]
    top = np.abs(field).max() or 1
    s = SCALE / top
    rr = [rng.randrange(R + 1) for _ in range(samples)]
    cc = [rng.randrange(2 * R + 1) for _ in range(samples)]
    rr[:3], cc[:3] = [0, R, R // 2], [0, 2 * R, 2 * R]
    show = got if got.shape == (R + 1, 2 * R + 1) else np.full((R + 1, 2 * R + 1), np.inf)
    colour = figures.colours(show[rr, cc], s if o["unnormalise"] else SCALE)
    want = []
    for r, c in zip(rr, cc, strict=True):
        z = field[r, close[c]]
        want.append({"hidden": not inside[r, close[c]],
                     "v": [lib.q(x, s) for x in (z.real, z.imag, abs(z))]})
    amplitude = 0
    if f._unnoised_coefficients is not None:
        amplitude = lib.q(np.abs(ref.field(L, f._unnoised_coefficients)).max(), s)
    scene = fig.layout.scene.annotations or ()
    alpha, beta = ref.nearest(o)
    unit = s if o["unnormalise"] else SCALE
    return e | {
        "shape": list(got.shape), "got": colour, "want": want,
        "lo": lib.q(part.min(), s), "hi": lib.q(part.max(), s),
        "cmin": lib.q(surface.cmin, unit), "cmax": lib.q(surface.cmax, unit),
        "amplitude": amplitude, "name": f.name, "other": g.name if g else "",
        "filename": how["config"]["toImageButtonOptions"]["filename"],
        "annotations": [[lib.q(a[k], 1000) for k in "xyz"] for a in scene],
        "point": lib.qv([np.sin(beta) * np.cos(alpha), np.sin(beta) * np.sin(alpha),
                         np.cos(beta)], 1000),
    }


def fraction(rng, lo=-2, hi=2):
    d = rng.choice([1, 1, 2, 3, 4, 7, 8])
    f = fractions.Fraction(rng.randint(lo * d, hi * d), d)
    return {"num": f.numerator, "den": f.denominator}


def commands(ctx, cases, each):
    rng = ctx.rng
    by = {}
    for c in cases:
        by.setdefault((c["kind"], c["method"], c["conv"]), []).append(c)
    for i, (_, cs) in enumerate(sorted(by.items())):
        for j, c in enumerate(lib.sample(rng, cs, each)):
            o = dict(c)
            o["part"] = rng.choice(list(PARTS)) if j % 3 else "real"
            o["conv"] = rng.choice(["wmap", "south_america"]) if o["conv"] == "wmap" else o["conv"]
            if j % 2:
                o["alpha"], o["gamma"] = fraction(rng), fraction(rng)
                o["beta"] = fraction(rng, 0, 1)
            if j % 5 == 4:
                o |= {"alpha": {"num": 3, "den": 4}, "beta": {"num": 1, "den": 8},
                      "gamma": {"num": 0, "den": 1}}
            L = 4 if ctx.quick and o["kind"].startswith("slepian") else LS[(i + j) % len(LS)]
            # a point with two nearest samples decides nothing
            if ambiguous(o, L):
                o["alpha"], o["beta"] = {"num": 1, "den": 1}, {"num": 1, "den": 1}
            yield run_command(o, L, rng, 24)
    usual = [c for c in cases if not c["kind"].startswith("slepian") and not c["region"]
             and not ambiguous(c, 16)]
    for c in lib.sample(rng, usual, 4):             # the usual bandlimit
        yield run_command(dict(c) | {"unzeropad": True, "conv": "none"}, 16, rng, 24)


def ambiguous(o, L):
    for k, n in (("alpha", 2 * L), ("beta", L)):
        x = fractions.Fraction(o[k]["num"], o[k]["den"]) * (n // (2 if k == "alpha" else 1))
        if (2 * x).denominator == 1 and x.denominator == 2:
            return True
    return False


def usage():
    good = ["gaussian", "-L", "4", "-z"]
    for valid, argv in (
        (True, good), (True, [*good, "-m"]), (True, [*good, "-p"]), (True, [*good, "-t"]),
        (True, [*good, "-c", "earth"]), (True, ["wmap", "-L", "4", "-z", "-r"]),
        (False, ["cube", "-L", "4"]), (False, [*good, "-c", "gaussian"]),
        (False, [*good, "-m", "south"]), (False, [*good, "-p", "europe"]),
        (False, [*good, "-t", "phase"]), (False, []), (False, [*good, "-e", "0.5"]),
        (False, ["gaussian", "-L", "0"]),
        (False, [*good, "-e", "1", "2"]), (False, ["slepian", "-L", "4", "-e", "16"]),
    ):
        got = lib.Forked(lambda: (*(r := call(argv))[:2], len(r[2]))).result()
        if got[0] == "skip":
            raise lib.Skip(got[1])
        outcome, why, shown = got[1] if got[0] == "ok" else ("died", str(got), 0)
        yield {"kind": "usage", "command": " ".join(argv), "valid": valid, "why": why,
               "outcome": outcome if outcome != "ok" or shown == 1 else "silent"}


def run(ctx):
    ctx.model("SphereCliCases", cfg(few="FALSE" if not ctx.quick else "TRUE"))
    ctx.model("SphereCliCases", cfg(early="TRUE", few="TRUE"), expect_violation=True)
    ctx.model("SphereCliCases", cfg(nameless="TRUE", few="TRUE"), expect_violation=True)
    cases = ctx.cases("SphereCliCases", cfg(few="TRUE", emit="TRUE"))
    store.use_dir(ctx.scratch / "d")
    functions.put_data()
    masks = np.random.default_rng(3)
    for L in LS:
        functions.continents(L)
        for name in ("africa", "south_america"):
            R = SHOWN[L]
            sphere.save_mask(name, sphere.blob_mask(R, masks))
    lib.get("sleplet._class_lists")
    events = []
    with ctx.unit("commands"):
        events += commands(ctx, cases, 16 if ctx.quick else 90)
    with ctx.unit("usage"):
        events += usage()
    for i, e in enumerate(events):
        e["trace"] = i
    ctx.events = events
    return ctx.judge("SphereCliTrace", events)
