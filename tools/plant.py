"""Confirms planted bugs and shows what the checks say about them (development tool; no check uses it).

  plant.py make BUGS.py [ID..]   write seeded/<id>/ from a table of bugs, keep those which pass the tests and whose demo works
  plant.py run  [ID..]           run the quick check of the bug's property against a patched copy; prints caught / missed
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "TZ": "UTC", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0"}
BASE = "/tmp/plant"


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy(name):
    d = os.path.join(BASE, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(BASE, exist_ok=True)
    sh(["git", "-C", "/repo", "worktree", "prune"], "/")
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    return d


def demo_text(b):
    return ('import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport pandas as pd\nimport staircase as sc\n'
            'from staircase import Stairs\n\n' + b["demo"].strip() + '\nprint("ok")\n')


def make(b):
    d = copy(b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = ""
        for f in sorted({f for f, _, _ in b["edits"]}):
            rc, out = sh(["git", "diff", "--no-index", os.path.join("/repo", f), os.path.join(d, f)], "/")
            out = out.replace("a" + os.path.join("/repo", f), "a/" + f).replace("b" + os.path.join(d, f), "b/" + f)
            diff += out
        demo = os.path.join(BASE, b["id"] + "-demo")
        os.makedirs(demo, exist_ok=True)
        open(os.path.join(demo, "demo.py"), "w").write(demo_text(b))
        rc0, o0 = sh([PY, os.path.join(demo, "demo.py")], "/repo")
        rc1, o1 = sh([PY, os.path.join(demo, "demo.py")], d)
        shutil.rmtree(demo)
        if rc0 != 0:
            return b["id"], "demo fails on the unchanged tree: " + o0[-400:]
        if rc1 == 0:
            return b["id"], "demo passes with the patch"
        rc, out = sh([PY, "-m", "pytest", "tests", "-q", "-x", "-n", "2", "-p", "no:cacheprovider", "--disable-warnings"], d)
        if rc != 0:
            return b["id"], "tests fail: " + " | ".join(x for x in out.splitlines() if x.startswith("FAILED"))[:300] + out[-100:]
        s = os.path.join(SEEDED, b["id"])
        os.makedirs(s, exist_ok=True)
        open(os.path.join(s, "patch.diff"), "w").write(diff)
        open(os.path.join(s, "demo.py"), "w").write(demo_text(b))
        open(os.path.join(s, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(s, "demo.sh"), 0o755)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(s, "meta.json"), "w"), indent=1)
        return b["id"], "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(bid, prop=None, extra=()):
    d = copy("run-" + bid)
    try:
        s = os.path.join(SEEDED, bid)
        prop = prop or json.load(open(os.path.join(s, "meta.json")))["property"]
        rc, out = sh(["git", "apply", "--directory", d.lstrip("/"), "--unsafe-paths", os.path.join(s, "patch.diff")], "/")
        if rc:
            rc, out = sh(["patch", "-p1", "-i", os.path.join(s, "patch.diff")], d)
            if rc:
                return bid, "patch does not apply: " + out
        rc, out = sh([os.path.join(ROOT, "check.sh"), prop, "quick", "--out", d + "-out", *extra], ROOT, {**ENV, "PYTHONPATH": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, 1000)
        lines = [x for x in out.splitlines() if x.strip()]
        first = next((x for x in lines if " x " in x[:12]), "")
        return bid, prop, rc, first[:260], lines[-1][:200] if rc not in (0, 1) else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "-out", ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("bugs", sys.argv[2])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo = [b for b in m.BUGS if (b["id"] in sys.argv[3:] if len(sys.argv) > 3 else not os.path.exists(os.path.join(SEEDED, b["id"])))]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, todo):
                print(*r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for b in ids:
            b, _, p = b.partition("@")
            print(*run(b, p or None), flush=True)
