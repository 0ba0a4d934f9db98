"""Regenerates the fixed: lines of known_findings.txt from tools/fixed.txt (commit -> properties) and /repo's log."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "known_findings.txt")
keep = [l for l in open(f) if not l.startswith("fixed:")]
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
out, seen = [], set()
for l in open(os.path.join(V, "tools", "fixed.txt")):
    c, *ids = l.split()
    seen.add(c)
    out += ["fixed: property=%s %s %s\n" % (i, c, log[c][5:]) for i in ids]
open(f, "w").writelines(keep + out)
print(len(out), "lines; fix commits without entry:", [c for c, m in log.items() if m.startswith("fix:") and c not in seen])
