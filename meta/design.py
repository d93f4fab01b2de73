"""Writes DESIGN.md: meta/design_intro.md, a section per property from the checks and the catalog, the planted bugs, meta/design_rest.md."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True


def read(name):
    with open(os.path.join(HERE, name)) as f:
        return f.read()


fixes = sum(1 for l in read("known_findings.txt").splitlines() if l.startswith("fixed:"))
out = [read("meta/design_intro.md").replace("%(fixes)s", str(fixes)), "\n## 2. The properties\n"]
costs = json.loads(read("meta/costs.json"))
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    pid = p["id"]
    try:
        m = importlib.import_module("mc.checks." + pid.lower())
    except ImportError:
        continue
    out.append("### %s — %s\n" % (pid, p["title"]))
    out.append("- *Specified*: %s" % p["statement"])
    out.append("- *Enumerated and monitored*: %s." % m.RULE.rstrip("."))
    out.append("- *Oracle and assumptions*: %s." % "; ".join(x.rstrip(".") for x in m.ASSUMPTIONS))
    out.append("- *Bounds*: quick: %s. Thorough: %s." % (m.BOUNDS["quick"], m.BOUNDS["thorough"]))
    c = costs.get(pid, {})
    out.append("- *Cost* (8 cores): %s." % "; ".join("%s %s" % (t, c[t]) for t in ("quick", "thorough") if t in c))
    out.append("- *Why tests cannot settle it*: %s." % p["why_tests_cant"].rstrip("."))
    out.append("- *Anchored in*: %s.\n" % ", ".join("`%s`" % x for x in p["anchors"]["files"]))

caught = json.loads(read("meta/caught.json"))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.loads(read(os.path.relpath(path, HERE)))
    name = os.path.basename(os.path.dirname(path))
    rows.append("| %s | %s | %s | %s | %s |" % (name, m["property"], m["needs"], m["what_it_breaks"], caught.get(name, "?")))
out.append(read("meta/design_rest.md") % {"seeds": "\n".join(rows), "revert": caught.get("revert", ""), "fixes": fixes})
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
