"""Write the "fixed:" lines of known_findings.txt from the fix commits of the repository (in their order)."""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# the property that each fix commit restored, in the order of the commits
PROPERTIES = """
C01 C01 C01 C02 C15 C14 C14 C09 C09 C02 C02 C02 C02 C02 C02 C03 C02 C02 C03 C03 C03 C03 C03 C03 C03 C11 C03 C11 C25 C09
C03 C03 C16 C03 C04 C04 C04 C04 C04 C10 C24 C05 C05 C05 C13 C05 C14 C06 C07 C24 C08 C09 C10 C11 C04 C14 C12 C12 C12 C13
C13 C13 C13 C15 C14 C14 C27 C05 C15 C16 C17 C17 C17 C17 C18 C18 C18 C18 C18 C18 C18 C18 C18 C19 C19 C15 C20 C20 C24 C20
C20 C20 C20 C20 C20 C20 C24 C24 C24 C24 C21 C21 C21 C21 C22 C22 C22 C22 C22 C26 C25 C23 C23 C23 C23 C23 C23 C14 C27 C27
C27 C27 C27 C27 C27 C25 C26 C26 C26 C26 C29 C29 C28 C28 C28 C29 C13 C13 C28 C25 C24 C21 C02 C14 C01 C01 C30 C30 C30 C30 C30 C31 C31 C31 C31 C31 C31 C31
""".split()

out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], text=True).splitlines()
print(len(out), len(PROPERTIES))
path = os.path.join(HERE, "known_findings.txt")
keep = [l for l in open(path) if not l.startswith("fixed:")] if os.path.exists(path) else []
with open(path, "w") as f:
    f.writelines(keep)
    for line, pid in zip(out, PROPERTIES):
        commit, what = line.split(" fix: ")
        f.write("fixed: property=%s %s %s\n" % (pid, commit, what))
