"""P03: interrupted or concurrent runs never spoil the saved results."""

import contextlib
import os
import pathlib
import resource
import signal
import sys
import threading
import time

import lib
import numpy as np
import sphere
import store

ENV = {"NUMBA_DISABLE_JIT": "1"}
CONFIGS = {
    "cap": [("polar", 3, 60), ("polar", 3, 60, True)],
    "box": [("box", 2, 30, 90, 20, 100)],
    "mask": [("mask", 2, "va")],
    "mesh": [("mesh_slepian", "cube", 8)],
}
# one order alone, from whatever was left of the results for all orders
PROBES = {("polar", 3, 60): ("polar", 3, 60, False, -1),
          ("polar", 3, 60, True): ("polar", 3, 60, True, 1)}
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


# what a process does to a file it has opened
STEPS = {"sendfile", "write", "writelines", "tofile", "close", "__exit__", "flush",
         "truncate", "copyfileobj", "pwrite", "writev", "copy_file_range"}


def watch(action, folder):
    """Call `action` with the number of each file operation, before it happens."""
    count = [0]
    folder = str(folder)

    def profile(_frame, event, arg):
        if event == "c_call" and getattr(arg, "__name__", "") in STEPS:
            on = getattr(arg, "__self__", None)
            name = getattr(on, "name", None)
            ours = isinstance(name, str) and name.startswith(folder)
            if ours or not isinstance(name, (str, int)):
                count[0] += 1
                action(count[0], arg.__name__)

    def hook(event, args):
        if event == "open":
            path, mode, flags = args
        elif event in {"os.rename", "os.remove", "os.mkdir", "os.link", "os.truncate",
                       "shutil.move", "shutil.copyfile", "os.symlink"}:
            path, flags = args[0], 0
        else:
            return
        if isinstance(path, (str, bytes, os.PathLike)) and os.fsdecode(path).startswith(
            folder
        ):
            # while a file is written, also what happens to it
            sys.setprofile(profile if flags & WRITES else None)
            count[0] += 1
            action(count[0], event)

    sys.addaudithook(hook)
    return count


def counted(cfg, where, masks):
    store.use_dir(where)
    store.put_masks(masks)
    count = watch(lambda *_: None, store.data_dir())
    store.compute(cfg)
    return count[0]


def killed(cfg, where, k):
    """End the process at its k-th file operation."""
    store.use_dir(where)

    def action(n, _event):
        if n == k:
            os._exit(77)

    watch(action, store.data_dir())
    return store.compute(cfg)


def interrupted(cfg, where, k, error):
    store.use_dir(where)

    def action(n, _event):
        if n == k:
            raise {"KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError,
                   "MemoryError": MemoryError}[error]("injected")

    watch(action, store.data_dir())
    try:
        return store.compute(cfg)
    except KeyboardInterrupt:
        return {"outcome": "error", "exc": "KeyboardInterrupt", **store.EMPTY,
                "cfg": store.label(cfg), "tol": 0, "wrote": [], "saves": True}


def limited(cfg, where, size, kill):
    """No file can grow beyond the size: an error, or the end of the process."""
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    store.use_dir(where)
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    try:
        return store.compute(cfg)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))


def after(cfg, where):
    store.use_dir(where)
    return store.compute(cfg)


def faulty(cfg, where, masks, fault):
    """A fault, then two runs which nothing disturbs, each in its own process."""
    store.use_dir(where)
    store.put_masks(masks)
    kind, *args = fault
    fn = {"killed": killed, "interrupted": interrupted, "limited": limited}[kind]
    r = lib.Forked(fn, cfg, where, *args).result()
    if r[0] == "ok":
        e = r[1]
    else:
        e = {"outcome": r[0], **store.EMPTY, "cfg": store.label(cfg), "tol": 0,
             "wrote": [], "saves": True}
    out = [{"kind": "fault", "fault": [str(x) for x in fault], **e}]
    if cfg in PROBES:
        out += later(PROBES[cfg], where, 1)
    return out + later(cfg, where)


def later(cfg, where, times=2):
    out = []
    for _ in range(times):
        r = lib.Forked(after, cfg, where).result()
        e = r[1] if r[0] == "ok" else {
            "outcome": r[0], **store.EMPTY, "cfg": store.label(cfg), "tol": 0,
            "wrote": [], "saves": True}
        out.append({"kind": "compute", "present": True, **e})
    return out


def stepped(cfg, where, ready, go):
    """A run which waits for its turn at each file operation."""
    store.use_dir(where)

    def action(_n, _event):
        os.write(ready, b".")
        os.read(go, 1)

    watch(action, store.data_dir())
    out = store.compute(cfg)
    os.write(ready, b"x")
    return out


def overlapping(cfg, where, masks, choices, count, crash_at):
    """Several runs which take turns as the schedule says."""
    store.use_dir(where)
    store.put_masks(masks)
    runs = []
    for _ in range(count):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        f = lib.Forked(stepped, cfg, where, w1, r2)
        os.close(w1)
        os.close(r2)
        runs.append({"f": f, "ready": r1, "go": w2, "alive": True})
    alive = list(runs)
    for r in runs:                          # all stand before their first operation
        if os.read(r["ready"], 1) != b".":
            alive.remove(r)
    schedule, step = [], 0
    while alive:
        k = choices[step % len(choices)] % len(alive)
        r = alive[k]
        schedule.append(runs.index(r))
        if step == crash_at:
            os.kill(r["f"].pid, signal.SIGKILL)
            alive.remove(r)
            step += 1
            continue
        step += 1
        os.write(r["go"], b".")
        if os.read(r["ready"], 1) != b".":
            alive.remove(r)
    out = []
    for i, r in enumerate(runs):
        res = r["f"].result()
        crashed = res[0] == "died"
        e = res[1] if res[0] == "ok" else {
            "outcome": res[0], **store.EMPTY, "cfg": store.label(cfg), "tol": 0,
            "wrote": [], "saves": True}
        # runs which overlap may each write
        out.append({"kind": "fault" if crashed else "compute", "run": i,
                    "schedule": schedule, **e, "saves": False, "present": True})
        os.close(r["ready"])
        os.close(r["go"])
    return out + later(cfg, where)


def threads(cfg, where, masks, choices, count):
    """The same, in threads of one process which take turns."""
    r = lib.Forked(together, cfg, where, masks, choices, count).result()
    if r[0] == "ok":
        out = [{"kind": "compute", **e, "saves": False, "present": True} for e in r[1]]
    elif r[0] == "skip":
        out = []
    else:
        out = [{"kind": "compute", "outcome": r[0], **store.EMPTY,
                "cfg": store.label(cfg), "tol": 0, "wrote": [], "saves": False,
                "present": True}]
    return out + later(cfg, where)


def together(cfg, where, masks, choices, count):
    store.use_dir(where)
    store.put_masks(masks)
    lib.get("sleplet.slepian", "Region")     # nobody waits for an import of another
    changed = threading.Condition()
    waiting, turn, me, results = set(), [None], threading.local(), {}

    def action(_n, _event):
        k = getattr(me, "k", None)
        if k is None:
            return
        with changed:
            waiting.add(k)
            changed.notify_all()
            changed.wait_for(lambda: turn[0] == k)
            turn[0] = None
            waiting.discard(k)

    def go(k):
        me.k = k
        try:
            results[k] = store.compute(cfg)
        finally:
            with changed:
                results.setdefault(k, None)
                changed.notify_all()

    watch(action, store.data_dir())
    ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(count)]
    for t in ts:
        t.start()
    step = 0
    with changed:
        while len(results) < count:
            # one which waits for another, not for its turn, is left alone
            changed.wait_for(lambda: turn[0] is None
                             and len(waiting) + len(results) == count, timeout=3)
            if turn[0] is None and waiting:
                w = sorted(waiting)
                turn[0] = w[choices[step % len(choices)] % len(w)]
                step += 1
                changed.notify_all()
    for t in ts:
        t.join()
    if any(r is None for r in results.values()):
        raise lib.Skip("a thread did not finish")
    return [results[k] for k in sorted(results)]


SCHEDULES = """SPECIFICATION Spec
CONSTANTS Turns = {n}
Length = {length}
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    ctx.model("Store", store.store_cfg(runs=3 if ctx.quick else 4,
                                       parts=2 if ctx.quick else 3))
    ctx.model("Store", store.store_cfg(atomic=False), expect_violation=True)
    rng = np.random.default_rng(ctx.seed)
    masks = [("va", sphere.blob_mask(4, rng))]
    cases = ctx.cases("Schedules", SCHEDULES.format(n=3, length=7), flat=False)

    events, jobs = [], []
    cfgs = [c for cs in CONFIGS.values() for c in cs]
    for name, cs in CONFIGS.items():
        with ctx.unit(name):
            for i, c in enumerate(cs):
                r = ctx.forked(store.reference, c, ctx.scratch / f"ref-{name}-{i}", masks)
                ref = ctx.value("reference", r)
                if ref is None:
                    raise lib.Skip("no reference")
                events.append({"kind": "reference", "trace": "references", **ref})
                if c in PROBES:
                    r = ctx.forked(store.reference, PROBES[c],
                                   ctx.scratch / f"ref-{name}-{i}-probe", masks)
                    events.append({"kind": "reference", "trace": "references", **r[1]})
                ops = ctx.forked(counted, c, ctx.scratch / f"count-{name}-{i}", masks)[1]
                ctx.notes.append(f"{store.label(c)}: {ops} file operations")
                sizes = [s for _, _, s in files_of(ctx.scratch / f"ref-{name}-{i}")]
                faults = [("killed", k) for k in range(1, ops + 1)]
                errs = ("KeyboardInterrupt", "OSError", "MemoryError")
                faults += [("interrupted", k, e) for k in range(1, ops + 1) for e in (
                    [ctx.rng.choice(errs)] if ctx.quick else errs)]
                limits = {0, 1, 64, 128} | {s - 1 for s in sizes} | {
                    s - 8 for s in sizes} | set(sizes[:-1])
                for _ in range(2 if ctx.quick else 20):
                    limits.add(ctx.rng.randrange(max(sizes)))
                faults += [("limited", s, kill) for s in sorted(limits)
                           for kill in (True, False)]
                for f in faults:
                    jobs.append((faulty, c, ctx.scratch / f"f-{len(jobs)}", masks, f))
                for k, ch in enumerate(
                    lib.sample(ctx.rng, cases, 12 if ctx.quick else 200)
                ):
                    crash = ctx.rng.randrange(ops) if k % 3 == 2 else -1
                    jobs.append((overlapping, c, ctx.scratch / f"f-{len(jobs)}", masks,
                                 ch, 2 + k % 2, crash))
                for k, ch in enumerate(
                    lib.sample(ctx.rng, cases, 3 if ctx.quick else 50)
                ):
                    jobs.append((threads, c, ctx.scratch / f"f-{len(jobs)}", masks,
                                 ch, 2 + k % 2))
    for i, r in enumerate(lib.parallel(jobs)):
        h = ctx.value("faults", r)
        if h is not None:
            events.append({"kind": "begin", "trace": f"{i}"})
            events += [dict(e, trace=f"{i}") for e in h]
    for f in pathlib.Path("/dev/shm").glob("psm_*"):     # of runs which were killed
        with contextlib.suppress(OSError):
            if time.time() - f.stat().st_mtime > 300:
                f.unlink()
    ctx.notes.append(f"{len(cfgs)} configurations, {len(jobs)} faults and overlaps")
    ctx.events = events
    return ctx.judge("StoreTrace", events)


def files_of(where):
    return [(p.name, 0, p.stat().st_size) for p in sorted((where / "data").rglob("*.npy"))
            if not p.name.startswith("slepian_masks")]
