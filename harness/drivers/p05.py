"""P05: parallel computation under controlled schedules and failures."""

import os
import pathlib
import random

import lib
import numpy as np
import sched
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
SCALE, TOL = 10**6, 3
CFG = """SPECIFICATION Spec
CONSTANTS Rows = {rows}
Workers = {workers}
Consume = {consume}
Finally = {fin}
Private = {private}
Faults = {faults}
INVARIANTS Deterministic NotHidden NothingSaved Released UsedWhileLive {emit}
{tail}
CHECK_DEADLOCK FALSE
"""


def cfg(rows=4, workers=2, consume=True, fin=True, private=True, faults=1, emit="",
        tail="VIEW View\nPROPERTY Ends"):
    b = {True: "TRUE", False: "FALSE"}
    return CFG.format(rows=rows, workers=workers, consume=b[consume], fin=b[fin],
                      private=b[private], faults=faults, emit=emit, tail=tail)


CREATED = []


def watch_shared_memory():
    """Records the names of the shared memory which is created."""
    import importlib

    for name in ("multiprocess.shared_memory", "multiprocessing.shared_memory"):
        try:
            c = importlib.import_module(name).SharedMemory
        except ImportError:
            continue
        if getattr(c, "_watched", False):
            continue
        init = c.__init__

        def wrapped(self, name=None, create=False, size=0, *a, _init=init, **k):
            _init(self, name, create, size, *a, **k)
            if create:
                CREATED.append(self.name)

        c.__init__ = wrapped
        c._watched = True


def leaked():
    return sum(pathlib.Path("/dev/shm", n.lstrip("/")).exists() for n in CREATED)


def clean_up():
    for n in CREATED:
        pathlib.Path("/dev/shm", n.lstrip("/")).unlink(missing_ok=True)


def solve(what):
    kind, *a = what
    if kind == "polar":
        s = lib.get("sleplet.slepian", "SlepianPolarCap")(
            a[0], store.rad(a[1]), gap=a[2], **({} if len(a) < 4 else {"order": a[3]}))
        return s.eigenvalues, s.eigenvectors
    if kind == "mask":
        s = lib.get("sleplet.slepian", "SlepianArbitrary")(*a)
        return s.eigenvalues, s.eigenvectors
    m = lib.get("sleplet.meshes", "Mesh")(a[0], number_basis_functions=a[1])
    s = lib.get("sleplet.meshes", "MeshSlepian")(m)
    return s.slepian_eigenvalues, s.slepian_functions


def observe(what, before):
    """The matrix is that of which these are the eigenvalues and eigenvectors."""
    out = {"cfg": store.label(what), "tol": TOL}
    try:
        ev, vec = solve(what)
        mat = (vec.T * ev) @ vec.conj()
        parts = [mat.real] + ([mat.imag] if np.iscomplexobj(mat) else [])
        out |= {"outcome": "ok", "ev": lib.qv(ev, SCALE),
                "mat": lib.qv(np.concatenate(parts).ravel(), SCALE)}
    except lib.Skip:
        raise
    except BaseException as e:  # noqa: BLE001
        chain, x = [], e
        while x is not None and len(chain) < 10:
            chain.append(x)
            x = x.__cause__ or x.__context__
        out |= {"outcome": "error", "ev": [], "mat": [],
                "exc": f"{lib.exc_name(e)}: {e}"[:200],
                "injected": any("injected" in str(x) for x in chain)}
    now = set(store.files())
    out |= {"leaked": leaked(), "wrote": sorted(now - before),
            "saves": what[0] != "polar" or len(what) < 5}
    return out


def prepare(where, masks, what):
    store.use_dir(where)
    store.put_masks(masks)
    watch_shared_memory()
    if what[0] == "mesh":
        # the eigenfunctions of the mesh are not the part which runs in parallel
        lib.get("sleplet.meshes", "Mesh")(what[1], number_basis_functions=what[2])
    return set(store.files())


def reference(where, masks, what):
    os.environ["NCPU"] = "1"
    before = prepare(where, masks, what)
    out = {"kind": "reference", **observe(what, before)}
    clean_up()
    return [out]


def dry(where, masks, what, ncpu):
    """How many lines the workers run."""
    os.environ["NCPU"] = str(ncpu)
    before = prepare(where, masks, what)
    with sched.Scheduler(ncpu, [], 10, random.Random(0)) as s:
        observe(what, before)
    clean_up()
    return s.lines


def scheduled(where, masks, what, ncpu, turns, quantum, seed, fault, exc):
    os.environ["NCPU"] = str(ncpu)
    before = prepare(where, masks, what)
    with sched.Scheduler(ncpu, turns, quantum, random.Random(seed), fault,
                         EXCEPTIONS[exc]) as s:
        out = observe(what, before)
    info = {"ncpu": ncpu, "turns": turns, "seed": seed, "quantum": quantum,
            "lines": s.lines, "switches": s.switches, "stalled": s.stalled}
    if fault is None:
        res = [{"kind": "schedule", **out, **info}]
    else:
        res = [{"kind": "fault", "injected": False, **out, **info, "fired": s.fired,
                "fault": fault, "where": s.where, "raises": exc}]
        if s.fired:
            res.append({"kind": "retry", **observe(what, set(store.files()))})
    clean_up()
    return res


EXCEPTIONS = {"InjectedError": sched.InjectedError, "MemoryError": MemoryError,
              "ValueError": ValueError, "KeyError": KeyError, "OSError": OSError}


def chunk_events(ctx):
    f = lib.get("sleplet._parallel_methods", "split_arr_into_chunks")
    out = []
    sizes = [*range(26 if ctx.quick else 131),
             *sorted(ctx.rng.sample(range(131, 2100), 6 if ctx.quick else 40)), 289, 1024]
    for n in sizes:
        few = {1, 2, 3, 4, 5, 7, 8, 16, n or 1, n + 1}
        for k in sorted(few if n < 131 else {1, 2, 3, 16, 33, 64, 127}):
            out.append({"kind": "chunks", "n": n, "ncpu": k,
                        "chunks": [[int(x) for x in c] for c in f(n, k)]})
    return out


def run(ctx):
    ctx.model("Workers", cfg(rows=6, workers=3, faults=2))
    if not ctx.quick:
        ctx.model("Workers", cfg(rows=8, workers=4, faults=2))
    for k in ("consume", "fin", "private"):
        ctx.model("Workers", cfg(**{k: False}), expect_violation=True)
    cases = ctx.cases("Workers", cfg(rows=4, workers=2, faults=1, emit="Emit", tail=""))
    cases += ctx.cases("Workers", cfg(rows=2, workers=3, faults=1, emit="Emit", tail=""))
    ctx.notes.append(f"{len(cases)} behaviours of Workers to replay")
    rng = ctx.rng
    masks = [("va", sphere.blob_mask(6, np.random.default_rng(ctx.seed)))]
    solvers = [("polar", 3, 50, False), ("polar", 3, 40, True), ("polar", 6, 70, False, 1),
               ("mask", 3, "va"), ("mesh", "cube", 8), ("mesh", "teapot", 7)]
    events, jobs = [], []
    with ctx.unit("chunks"):
        events += chunk_events(ctx)
    n_sched, n_fault = (20, 16) if ctx.quick else (150, 150)
    for what in solvers:
        with ctx.unit(store.label(what)):
            # trees without the solver are skipped here
            lib.get("sleplet.meshes" if what[0] == "mesh" else "sleplet.slepian")
            lines = {k: ctx.forked(dry, ctx.scratch / f"dry-{store.label(what)}-{k}",
                                   masks, what, k) for k in (2, 3)}
            if lines[2][0] == "skip":
                raise lib.Skip(lines[2][1])
            lines = {k: max(v[1], 1) if v[0] == "ok" else 1 for k, v in lines.items()}
            jobs.append((reference, ctx.scratch / f"r-{len(jobs)}", masks, what))
            healthy = [c for c in cases if not c["failed"]]
            failing = [c for c in cases if c["failed"]]
            for k in (1, 4, 8, 17):
                jobs.append((scheduled, ctx.scratch / f"r-{len(jobs)}", masks, what, k,
                             [], 3, rng.randrange(10**6), None, "InjectedError"))
            for c in lib.sample(rng, healthy, n_sched):
                k = c["workers"]
                # a turn of the model is about one step of a worker
                fine = rng.choice([1, 3, max(1, lines[k] // len(c["turns"]))])
                jobs.append((scheduled, ctx.scratch / f"r-{len(jobs)}", masks, what, k,
                             c["turns"], fine, rng.randrange(10**6), None,
                             "InjectedError"))
            for c in lib.sample(rng, failing, n_fault):
                k = c["workers"]
                at = rng.choice([1, 2, lines[k] - 1, lines[k]]) \
                    if rng.random() < 0.2 else rng.randint(1, lines[k])
                jobs.append((scheduled, ctx.scratch / f"r-{len(jobs)}", masks, what, k,
                             c["turns"], max(1, lines[k] // len(c["turns"])),
                             rng.randrange(10**6), at, rng.choice(sorted(EXCEPTIONS))))
    results = lib.parallel(jobs)
    for job, r in zip(jobs, results, strict=True):
        if r[0] != "ok":
            ctx.crashes.append({"module": "driver", "clause": "run_dies",
                                "event": {"kind": "crash", "job": str(job[2:])[:300],
                                          "text": str(r)[:1500]}})
        else:
            events += r[1]
    for i, e in enumerate(events):
        e["trace"] = i
    stalls = sum(e.get("stalled", False) for e in events)
    ctx.notes.append(f"{stalls} schedules could not be controlled to the end")
    ctx.events = events
    return ctx.judge("WorkersTrace", events)
