"""Plants bugs: plant.py DEFS.py [ID ...] writes and confirms seeded/<id>/.

DEFS.py has calls plant(id, property, needs, breaks, [(file, old, new), ...], demo),
with files relative to src/sleplet.  A change is kept when it applies, the stable tests
pass with it, and its demonstration passes without and fails with it; whether the
check of its property reports it is recorded in seeded/<id>/meta.json.
"""

import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
HEAD = '''"""Exits 0 when the property holds on this input, 1 otherwise."""

import logging
import os
import sys
import tempfile
import warnings

_scratch = tempfile.TemporaryDirectory(prefix="demo-")
for _k in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
    os.environ[_k] = os.path.join(_scratch.name, _k)
    os.makedirs(os.environ[_k])
os.environ["http_proxy"] = os.environ["https_proxy"] = "http://127.0.0.1:9"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)


'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PLANTS = {}
FIRST = "563bdca"  # the pinned commit


def plant(id_, prop, needs, breaks, edits, demo):
    assert id_ not in PLANTS, id_
    PLANTS[id_] = (prop, needs, breaks, edits, demo)


def sh(*argv, cwd, env=None, timeout=600):
    p = subprocess.run(argv, cwd=cwd, env=os.environ | (env or {}), text=True,
                       capture_output=True, timeout=timeout, check=False)
    return p.returncode, p.stdout + p.stderr


def confirm(id_):
    prop, needs, breaks, edits, demo = PLANTS[id_]
    out = VERIF / "seeded" / id_
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"plant-{id_}-"))
    try:
        tree = scratch / "repo"
        sh("cp", "-a", "/repo", str(tree), cwd="/")
        where = scratch / "demo"
        where.mkdir()
        (where / "demo.py").write_text(HEAD + demo.lstrip("\n"))
        (where / "demo.sh").write_text(SH)
        (where / "demo.sh").chmod(0o755)
        env = {"PYTHONPATH": str(tree / "src"), "PYTHONDONTWRITEBYTECODE": "1"}
        rc0, text0 = sh(str(where / "demo.sh"), cwd=tree, env=env)
        if rc0:
            return id_, f"demo fails on the unchanged tree\n{text0[-800:]}"
        for f, old, new in edits:
            p = tree / "src/sleplet" / f
            s = p.read_text()
            if s.count(old) != 1:
                return id_, f"{f}: {s.count(old)} occurrences of\n{old}"
            p.write_text(s.replace(old, new))
        _, diff = sh("git", "diff", cwd=tree)
        for f, _, _ in edits:
            _, first = sh("git", "show", f"{FIRST}:src/sleplet/{f}", cwd=tree)
            _, own = sh("git", "diff", f"src/sleplet/{f}", cwd=tree)
            gone = [x[1:] for x in own.splitlines()
                    if x.startswith("-") and not x.startswith("---")]
            if not any(x.strip() and x in first.splitlines() for x in gone):
                return id_, f"{f}: changes no original line: {gone}"
        rc1, text1 = sh(str(where / "demo.sh"), cwd=tree, env=env)
        if rc1 == 0:
            return id_, "demo passes with the change"
        junit = scratch / "junit.xml"
        results = scratch / "results.json"
        data = {k: str(scratch / k) for k in
                ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME",
                 "HYPOTHESIS_STORAGE_DIRECTORY")}
        for d in data.values():
            os.makedirs(d)
        stable = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"]
        _, text = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist",
                     "-p", "no:codeblocks", "--timeout=300", "--tb=short",
                     "--continue-on-collection-errors",
                     "-o", "junit_family=xunit2", f"--junitxml={junit}", "tests",
                     cwd=tree, env=env | data | {
                         "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
                         "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
                         "http_proxy": "http://127.0.0.1:9",
                         "https_proxy": "http://127.0.0.1:9"})
        sh("/usr/bin/python3", "/opt/vp/results.py", str(results), f"junit:{junit}",
           cwd=tree)
        r = json.loads(results.read_text())
        passed = set(r.get("passed", []))
        missing = [t for t in stable if t not in passed]
        if missing:
            return id_, f"breaks stable tests {missing} {list(r)}\n{text[-1500:]}"
        t = time.time()
        rc, text = sh("./run.sh", prop, cwd=VERIF, env={
            "VERIF_REPO": str(tree), "VERIF_SEED": "1", "VERIF_TIER": "quick",
            "VERIF_EVIDENCE": str(scratch / "evidence")}, timeout=900)
        caught = rc == 1 and f"VIOLATION property={prop} " in text
        out.mkdir(parents=True, exist_ok=True)
        for f in ("demo.py", "demo.sh"):
            shutil.copy2(where / f, out / f)
        (out / "patch.diff").write_text(diff)
        (out / "meta.json").write_text(json.dumps(
            {"property": prop, "needs": needs, "what_it_breaks": breaks,
             "caught": caught}, indent=1) + "\n")
        line = [x for x in text.splitlines() if x.strip()][-4:]
        return id_, (f"{'CAUGHT' if caught else 'MISSED rc=%d' % rc} "
                     f"({time.time() - t:.0f} s, demo: {text1.strip()[-150:]})\n    "
                     + "\n    ".join(x[:220] for x in line))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ns = {"plant": plant}
    exec(pathlib.Path(sys.argv[1]).read_text(), ns)  # noqa: S102
    ids = sys.argv[2:] or list(PLANTS)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for id_, text in ex.map(confirm, ids):
            print(id_, text, flush=True)


if __name__ == "__main__":
    main()
