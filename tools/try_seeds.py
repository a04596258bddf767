"""Runs the check of each planted bug with the bug applied to a scratch copy of /repo: try_seeds.py [id ...]."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")

for bug in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    d = os.path.join(SEEDED, bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        r = subprocess.run(["./run", prop], cwd=ROOT, env={**os.environ, "VERIF_REPO": repo}, capture_output=True, text=True)
        print(bug, prop, r.returncode, "caught" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else "MISSED", flush=True)
    finally:
        shutil.rmtree(tmp)
