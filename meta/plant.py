"""Plant a bug: confirm it in a scratch copy of the repository and keep it under /verif/seeded/<id>/.

usage: python3 meta/plant.py SPEC.py     SPEC defines BUGS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport numpy\nimport awkward0\nfrom awkward0 import *\n\n"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    try:
        for b in bugs:
            if only and b["id"] not in only:
                continue
            sh("git checkout -q -- .", repo)
            files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
            bad = None
            for f, (old, new) in zip(files, b["edits"]):
                p = os.path.join(repo, "awkward0", f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "edit matches %d times: %r" % (s.count(old), old[:80])
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "SKIPPED", bad)
                continue
            patch = sh("git diff", repo).stdout
            own = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
            base = sh("git show $(git rev-list --max-parents=0 HEAD):awkward0/%s" % files[0], repo).stdout.splitlines()
            lost = [l for l in own if l not in base]
            if lost or not own:
                print(b["id"], "SKIPPED removed lines not in the original repository:", lost[:3])
                continue
            d = os.path.join(tmp, "d_" + b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            withbug = sh("bash %s/demo.sh" % d, repo, timeout=300)
            out = os.path.join(tmp, "t.json")
            t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout 600 %s -m pytest -q --no-header -rA -W ignore -p no:cacheprovider tests 2>&1 | grep -E '^(PASSED|FAILED|ERROR) '" % (repo, PY), repo)
            passed = set(l.split()[1] for l in t.stdout.splitlines() if l.startswith("PASSED"))
            failed = [l for l in t.stdout.splitlines() if not l.startswith("PASSED") and "test_arrow" not in l]
            sh("git checkout -q -- .", repo)
            clean = sh("bash %s/demo.sh" % d, repo, timeout=300)
            ok = withbug.returncode != 0 and clean.returncode == 0 and not failed and len(passed) >= 205
            print(b["id"], "OK" if ok else "REJECTED", "demo with bug rc=%d, without rc=%d, tests passed=%d failed=%s" % (withbug.returncode, clean.returncode, len(passed), failed[:3]))
            if clean.returncode != 0:
                print("   clean:", clean.stdout[-400:])
            if withbug.returncode == 0:
                print("   the demo does not notice")
            if ok:
                print("   ", withbug.stdout.strip().splitlines()[-1][:200])
                dest = os.path.join(HERE, "seeded", b["id"])
                shutil.rmtree(dest, ignore_errors=True)
                shutil.copytree(d, dest)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
