"""Run the quick check of each planted bug's property on a scratch copy with the bug, and say which are caught.

usage: python3 meta/seedcheck.py [ids]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.path.join(HERE, "seeded")
only = sys.argv[1:] or sorted(os.listdir(seeded))
tmp = tempfile.mkdtemp(prefix="seedcheck-")
repo, verif = os.path.join(tmp, "repo"), os.path.join(tmp, "verif")
subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), repo])
subprocess.check_call(["cp", "-a", HERE, verif])
try:
    for i in only:
        meta = json.load(open(os.path.join(seeded, i, "meta.json")))
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(seeded, i, "patch.diff")])
        start = time.time()
        out = subprocess.run(["bin/check", meta["property"], "quick"], cwd=verif, env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        line = [l for l in out.stdout.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        print(i, "caught" if out.returncode == 1 and line else "MISSED rc=%d" % out.returncode, "%.0fs" % (time.time() - start), flush=True)
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
finally:
    shutil.rmtree(tmp)
