"""Makes and tries planted bugs: `seed.py FILE.py [id ...]`; FILE defines BUGS (see tools/README of a bug below).

For each bug: apply the edits to a scratch copy of /repo, run the tests, run the demo with and without, run the checks
of its property.  Written to /verif/seeded/<id>/ when it is valid.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
exec /opt/venv/bin/python -X utf8 "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PRE = '''import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from pycep import BicepParser


'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="seed-")
        try:
            one(b, os.path.join(tmp, "repo"))
        finally:
            shutil.rmtree(tmp)


def one(b, repo):
    d = os.path.join(ROOT, "seeded", b["id"])
    shutil.copytree("/repo", repo, symlinks=True)
    for f, old, new in b["edits"]:
        p = os.path.join(repo, "pycep", f)
        s = open(p).read()
        assert s.count(old) == b.get("count", 1), (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = sh("git", "-C", repo, "diff").stdout
    t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests", cwd=repo, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
    if t.returncode:
        print(b["id"], "TESTS FAIL", [x for x in t.stdout.splitlines() if x.startswith("FAILED")][:3], t.stdout[-200:], flush=True)
        return
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(HEAD)
    open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    bad = sh("bash", os.path.join(d, "demo.sh"), cwd=repo, timeout=300)
    good = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo", timeout=300)
    if good.returncode or not bad.returncode:
        print(b["id"], f"DEMO BAD (clean {good.returncode} {good.stderr[-300:]}, patched {bad.returncode} {bad.stdout[-200:]})", flush=True)
        shutil.rmtree(d)
        return
    for c in [b["property"], *b.get("also", [])]:
        try:
            r = sh("./run", c, cwd=ROOT, timeout=900, env={**os.environ, "VERIF_REPO": repo})
            res = "caught" if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else f"MISSED ({r.returncode})"
        except subprocess.TimeoutExpired:
            res = "timeout"
        print(b["id"], c, res, flush=True)


main()
