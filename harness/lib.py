"""Shared machinery: TLC runs, traces and verdicts, isolation, evidence."""

import contextlib
import json
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
# the repository, or a scratch copy of it while the checks are developed
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = pathlib.Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
PYTHON = sys.executable
BIG = 2**31 - 1
NOT_IN_DOMAIN = ("Overflow when computing", "Attempted to")


class MachineryError(Exception):
    """The check itself failed, this says nothing about the property."""


class Skip(Exception):
    """A part of a driver which cannot be run on this tree."""


def isolate(scratch):
    """Keep every file the code under test reads or writes in the scratch folder."""
    env = {
        "XDG_DATA_HOME": f"{scratch}/data",
        "XDG_CACHE_HOME": f"{scratch}/cache",
        "XDG_CONFIG_HOME": f"{scratch}/config",
        "http_proxy": "http://127.0.0.1:9",
        "https_proxy": "http://127.0.0.1:9",
        "MPLBACKEND": "Agg",
        "PYTHONDONTWRITEBYTECODE": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "NUMBA_NUM_THREADS": "4",
        "PYTHONHASHSEED": "0",
    }
    for k in (
        "no_proxy", "NO_PROXY", "NCPU", "POLAR_GAP", "SLEPIAN_MASK",
        "PHI_MAX", "PHI_MIN", "THETA_MAX", "THETA_MIN",
    ):
        os.environ.pop(k, None)
    os.environ.update(env)
    sys.dont_write_bytecode = True
    for k in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        pathlib.Path(env[k]).mkdir(parents=True, exist_ok=True)


def import_sleplet():
    """Import the package from the working tree of the repository."""
    import logging
    import types
    import warnings

    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if not (REPO / "src/sleplet/_version.py").exists():
        stub = types.ModuleType("sleplet._version")
        stub.__version__ = "0"
        sys.modules["sleplet._version"] = stub
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import sleplet

    if not sleplet.__file__.startswith(src):
        msg = f"sleplet comes from {sleplet.__file__}"
        raise MachineryError(msg)
    return sleplet


def get(path, name=None):
    """An attribute of a module, `Skip` if this tree does not have it."""
    import importlib

    try:
        obj = importlib.import_module(path)
        for part in (name or "").split("."):
            if part:
                obj = getattr(obj, part)
    except (ImportError, AttributeError) as e:
        raise Skip(f"{path}:{name} ({e})") from e
    return obj


def q(x, scale):
    """Fixed point integer of a real number, saturated such that TLC can read it."""
    import numpy as np

    if not np.isfinite(x):
        return BIG // 4
    return int(np.clip(round(float(x) * scale), -BIG // 4, BIG // 4))


def qv(xs, scale):
    return [q(x, scale) for x in xs]


def qc(z, scale):
    return [q(z.real, scale), q(z.imag, scale)]


def qcv(zs, scale):
    return [qc(complex(z), scale) for z in zs]


def exc_name(e):
    return type(e).__name__


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{pid}-{seed}")
        self.t0 = time.time()
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.states = self.transitions = 0
        self.models, self.events, self.units = [], [], {}
        self.skipped, self.notes, self.judged = [], [], []
        self.crashes = []

    # --- specifications -------------------------------------------------
    def tlc(self, module, cfg, *, env=None, workers="auto", timeout=700, extra=()):
        work = self.scratch / f"tlc-{len(os.listdir(self.scratch))}"
        work.mkdir()
        cfg_path = work / "run.cfg"
        cfg_path.write_text(cfg)
        argv = [
            "java", "-XX:+UseParallelGC", "-Xmx6g", f"-DTLA-Library={SPEC}",
            "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-nowarning",
            "-coverage", "1", "-noGenerateSpecTE",
            "-metadir", str(work / "meta"), "-config", str(cfg_path), *extra,
            str(SPEC / f"{module}.tla"),
        ]
        p = subprocess.run(
            argv, cwd=work, capture_output=True, text=True, timeout=timeout,
            env=os.environ | (env or {}), check=False,
        )
        out = p.stdout + p.stderr
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return p.returncode, out, gen, dist

    def model(self, module, cfg, *, expect_violation=False, **kw):
        """Model check a specification, exhaustively within its constants."""
        rc, out, gen, dist = self.tlc(module, cfg, **kw)
        acts = {}
        for name, d, g in re.findall(
            r"^<(\w+) line .*?>: ([\d,]+):([\d,]+)$", out, re.M
        ):
            n = int(g.replace(",", ""))
            acts[name] = max(acts.get(name, 0), n)
        if expect_violation:
            if rc == 0 or "is violated" not in out:
                msg = f"{module}: the broken design is not rejected\n{out[-3000:]}"
                raise MachineryError(msg)
        elif rc != 0:
            at = first(out, "***Parse Error", "Error:")
            msg = f"{module}: TLC failed ({rc})\n{out[at:at + 3000]}"
            raise MachineryError(msg)
        dead = sorted(a for a, n in acts.items() if n == 0)
        if dead and not expect_violation:
            msg = f"{module}: actions never taken: {dead}"
            raise MachineryError(msg)
        self.states += dist
        self.transitions += gen
        self.models.append(
            {
                "module": module, "distinct_states": dist, "transitions": gen,
                "actions": acts,
                **({"broken_design_rejected": True} if expect_violation else {}),
            }
        )
        return out

    def cases(self, module, cfg, *, flat=True, **kw):
        """Cases or behaviours which TLC generates, one JSON value per line."""
        path = self.scratch / f"cases-{module}-{time.time_ns()}.json"
        kw.setdefault("workers", 1)
        self.model(module, cfg, env={"CASES": str(path)}, **kw)
        out = []
        text = path.read_text() if path.exists() else ""
        for line in text.splitlines():
            if line.strip():
                v = json.loads(line)
                out.extend(v if isinstance(v, list) and flat else [v])
        if not out:
            msg = f"{module}: no cases generated"
            raise MachineryError(msg)
        return out

    def judge(self, module, events, *, cfg=None, constants="", timeout=700):
        """Check recorded events against a trace specification."""
        if not events:
            return []
        n = len(self.judged)
        trace = self.scratch / f"trace-{n}-{module}.ndjson"
        verdict = self.scratch / f"verdict-{n}-{module}.json"
        with trace.open("w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        cfg = cfg or (
            f"SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\n"
            f"CHECK_DEADLOCK FALSE\n{constants}"
        )
        rc, out, gen, dist = self.tlc(
            module, cfg, workers=1, timeout=timeout,
            env={"TRACE": str(trace), "VERDICT": str(verdict)},
        )
        if rc != 0 or not verdict.exists():
            at = first(out, "***Parse Error", "Error:")
            text = out[at:at + 3000]
            steps = re.findall(r"^(?:/\\ )?l = (\d+)$", out, flags=re.MULTILINE)
            if steps and any(m in text[:1000] for m in NOT_IN_DOMAIN):
                # not of the form, or beyond the numbers, of any observation of the
                # specification: no behaviour of it has this event
                k = int(steps[-1]) - 1
                print(f"{module}: event {k} is not in the domain: {text.splitlines()[0][:200]}")
                return self.judge(module, events[:k], cfg=cfg, constants=constants,
                                  timeout=timeout) + [
                    {"module": module, "event": events[k], "clause": "in_domain"}]
            msg = f"{module}: trace not judged ({rc})\n{text}"
            raise MachineryError(msg)
        v = json.loads(verdict.read_text())
        if v["consumed"] != len(events):
            msg = f"{module}: {v['consumed']} of {len(events)} events consumed"
            raise MachineryError(msg)
        self.states += dist
        self.transitions += gen
        bad = [(i - 1, c) for i, c in v["bad"]]
        self.judged.append({"module": module, "events": len(events), "bad": len(bad)})
        return [{"module": module, "event": events[i], "clause": c} for i, c in bad]

    # --- driving the implementation -------------------------------------
    @contextlib.contextmanager
    def unit(self, name):
        """A part of a driver, not run on trees without the names it needs."""
        t = time.time()
        try:
            yield
        except Skip as e:
            self.skipped.append(f"{name}: {e}")
        except MachineryError:
            raise
        except Exception as e:  # noqa: BLE001
            frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
            inside = any(f.startswith(str(REPO / "src")) for f in frames)
            text = "".join(traceback.format_exception(e))[-1500:]
            if not inside and isinstance(e, (TypeError, AttributeError, ImportError)):
                # the tree does not offer what this part of the driver calls
                self.skipped.append(f"{name}: {exc_name(e)}: {e}")
                print(text, file=sys.stderr)
            else:
                print(text, file=sys.stderr)
                self.crashes.append(
                    {
                        "module": "driver",
                        "event": {"kind": "crash", "unit": name, "exc": exc_name(e),
                                  "text": text},
                        "clause": "unexpected_exception"
                        if inside else "malformed_result",
                    }
                )
        finally:
            self.units[name] = round(time.time() - t, 2)

    def child(self, code, *args, env=None, timeout=300, preexec=None, data=None):
        """Run a Python snippet with the harness in a process of its own."""
        e = os.environ | {"PYTHONPATH": str(VERIF / "harness")} | (env or {})
        return subprocess.run(
            [PYTHON, "-c", code, *map(str, args)], env=e, timeout=timeout,
            capture_output=True, text=True, check=False, preexec_fn=preexec,
            input=data, cwd=self.scratch,
        )

    def forked(self, fn, *args, timeout=300):
        """The result of a call in a fork of this process, see `Forked`."""
        return Forked(fn, *args).result(timeout)

    def value(self, what, r):
        """The value of a fork; a failure of the tree is noted, and None returned."""
        if r[0] == "ok":
            return r[1]
        with self.unit(what):
            if r[0] == "skip":
                raise Skip(r[1])
            if r[0] == "raised":
                inside = f'File "{REPO / "src"}' in r[3]
                if not inside and r[1] == "MachineryError":
                    raise MachineryError(r[2])
                if not inside and r[1] in {"TypeError", "AttributeError", "ImportError"}:
                    raise Skip(f"{r[1]}: {r[2]}")
                clause, text = ("unexpected_exception" if inside else "malformed_result",
                                r[3])
            else:
                clause, text = "died", f"the process ended with {r[1]}"
            print(text, file=sys.stderr)
            self.crashes.append({
                "module": "driver", "clause": clause,
                "event": {"kind": "crash", "unit": what, "exc": r[1], "text": text}})
        return None

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class Forked:
    """A call in a fork of this process: ("ok", value), ("raised", ...), ("died", ...)."""

    def __init__(self, fn, *args):
        import pickle

        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    out = ("ok", fn(*args))
                except Skip as e:
                    out = ("skip", str(e))
                except BaseException as e:  # noqa: BLE001
                    out = ("raised", exc_name(e), str(e)[:300],
                           "".join(traceback.format_exception(e))[-1500:])
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(out))
            except BaseException:  # noqa: BLE001
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.r = r

    def result(self, timeout=300):
        import pickle
        import select

        data, end = b"", time.time() + timeout
        while True:
            left = end - time.time()
            ready = left > 0 and select.select([self.r], [], [], left)[0]
            if not ready:
                os.kill(self.pid, signal.SIGKILL)
                break
            b = os.read(self.r, 1 << 20)
            if not b:
                break
            data += b
        os.close(self.r)
        _, status = os.waitpid(self.pid, 0)
        try:
            return pickle.loads(data)  # noqa: S301
        except Exception:  # noqa: BLE001
            return ("died", os.waitstatus_to_exitcode(status))


def parallel(jobs, width=8):
    """Results of (fn, *args) in forks, at most `width` at a time."""
    out = [None] * len(jobs)
    running = []
    for i, (fn, *args) in enumerate(jobs):
        if len(running) >= width:
            k, f = running.pop(0)
            out[k] = f.result()
        running.append((i, Forked(fn, *args)))
    for k, f in running:
        out[k] = f.result()
    return out


def first(text, *marks):
    return min((text.find(m) for m in marks if m in text), default=0)


def sample(rng, xs, n):
    return list(xs) if len(xs) <= n else rng.sample(list(xs), n)


def known_findings():
    path = VERIF / "known_findings.json"
    return json.loads(path.read_text())["findings"] if path.exists() else []


def matches(finding, pid, bad):
    if finding.get("property") != pid or finding.get("status") != "known":
        return False
    return finding.get("clause") == bad["clause"] and all(
        bad["event"].get(k) == v for k, v in finding.get("event", {}).items()
    )


def write_evidence(ctx, bad, *, level="model_checking", samples=()):
    kinds = {}
    for e in ctx.events:
        k = e.get("kind", "?")
        kinds[k] = kinds.get(k, 0) + 1
    traces = {str(e.get("trace", i)) for i, e in enumerate(ctx.events)}
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": level,
        "coverage": {
            "states": ctx.states,
            "transitions": ctx.transitions,
            "traces_validated_against_impl": len(traces),
            "events_validated": len(ctx.events),
            "events_by_kind": kinds,
            "models": ctx.models,
            "trace_runs": ctx.judged,
            "units_s": ctx.units,
            "skipped": ctx.skipped,
            "notes": ctx.notes,
            "samples": list(samples),
        },
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(bad),
    }
    out = EVIDENCE
    out.mkdir(exist_ok=True, parents=True)
    (out / f"{ctx.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")


def shrink(event, limit=1200):
    s = json.dumps(event)
    return event if len(s) <= limit else {
        k: v for k, v in event.items() if len(json.dumps(v)) <= 300
    } | {"shortened": True}


FATAL = (signal.SIGABRT, signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)


def supervise(ctx):
    """Continue in a fork, as the native libraries which the code calls may abort."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        return
    signal.signal(signal.SIGTERM, lambda *_: os.kill(pid, signal.SIGTERM))
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    left = rc >= 0 and not (ctx.scratch / "finished").exists()
    if left or rc in [-s for s in FATAL]:
        ctx.events = [{"kind": "crash", "signal": max(-rc, 0), "exit": max(rc, 0)}]
        bad = {"module": "driver", "event": ctx.events[0], "clause": "process_died"}
        write_evidence(ctx, [bad])
        path = EVIDENCE / "replay" / f"{ctx.pid}.json"
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(json.dumps([bad], indent=1) + "\n")
        print("  process_died: the process under test "
              + (f"left with {rc}" if left else f"died of signal {-rc}"))
        print(f"VIOLATION property={ctx.pid} replay={path}")
        rc = 1
    if not os.environ.get("VERIF_KEEP"):
        ctx.close()
    sys.stdout.flush()
    os._exit(rc if rc >= 0 else 2)


def main(argv):
    import importlib

    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    supervise(ctx)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    keep = os.environ.get("VERIF_KEEP")
    rc = 2
    try:
        mod = importlib.import_module(f"drivers.{pid.lower()}")
        isolate(ctx.scratch)
        os.environ.update(getattr(mod, "ENV", {}))
        import_sleplet()
        bad = mod.run(ctx) + ctx.crashes
        known = known_findings()
        new, old = [], {}
        for b in bad:
            hit = next((f for f in known if matches(f, pid, b)), None)
            if hit is None:
                new.append(b)
            else:
                old[hit["what"]] = old.get(hit["what"], 0) + 1
        samples = [shrink(e) for e in sample(ctx.rng, ctx.events, 3)]
        write_evidence(ctx, new, samples=samples)
        for what in old:
            print(f"KNOWN-FINDING: property={pid} {what}")
        if new:
            out = EVIDENCE / "replay"
            out.mkdir(parents=True, exist_ok=True)
            path = out / f"{pid}.json"
            path.write_text(json.dumps(new[:50], indent=1) + "\n")
            for b in new[:8]:
                print(f"  {b['clause']}: {json.dumps(shrink(b['event'], 600))[:900]}")
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        else:
            print(
                f"{pid}: held on {len(ctx.events)} recorded events, "
                f"{ctx.states} states; {time.time() - ctx.t0:.1f} s"
                + (f"; skipped {ctx.skipped}" if ctx.skipped else "")
            )
            rc = 0
    except Exception:
        traceback.print_exc()
        rc = 2
    if keep:
        print(f"kept {ctx.scratch}")
    sys.stdout.flush()
    sys.stderr.flush()
    (ctx.scratch / "finished").touch()
    os._exit(rc)
