"""Assembles DESIGN.md from the check modules, the repairs and the planted changes."""
import ast, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "design_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
fixed = {}
for l in open(os.path.join(V, "tools", "fixed.txt")):
    c, *ids = l.split()
    for i in ids:
        fixed.setdefault(i, []).append((c, log.get(c, "fix: ?")[5:]))
seeds, allseeds = {}, []
S = os.path.join(V, "seeded")
for n in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, n, "meta.json")))
    seeds.setdefault(m["property"], []).append(n)
    allseeds.append((n, m))
exec(open(os.path.join(V, "tools", "caught.py")).read())
find = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("finding:")]
out = [open(os.path.join(V, "tools", "design_head.md")).read(), "## Properties\n"]
for d in props:
    i = d["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    out.append("### %s %s\n" % (i, d["title"]))
    if not os.path.exists(f):
        out.append("No check.\n")
        continue
    m = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                m[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    out.append("%s\n" % d["statement"])
    out.append("* *How it is decided*: %s.\n* *Enumerated*: %s.\n* *Bounds, quick*: %s.\n* *Bounds, thorough*: %s." %
               (m["TECHNIQUE"], m["RULE"], m["BOUNDS"]["quick"], m["BOUNDS"]["thorough"]))
    if m.get("ASSUMPTIONS"):
        out.append("* *Trusts*: %s." % "; ".join(m["ASSUMPTIONS"]))
    out.append("* *Beyond tests*: %s" % d["why_tests_cant"])
    if i in COST:
        out.append("* *Cost*: %s" % COST[i])
    if i in NOTES:
        out.append("* *Remarks*: %s" % NOTES[i])
    for c, t in fixed.get(i, []):
        out.append("* *Defect repaired* (%s): %s" % (c, t))
    for l in find:
        if "property=%s " % i in l:
            out.append("* *Recorded finding*: %s" % l.split(" ", 2)[2])
    if seeds.get(i):
        out.append("* *Planted changes*: %s" % ", ".join(seeds[i]))
    out.append("")
out.append("## Planted changes\n")
out.append("Each was written from the property's text and the code, verified in a scratch copy (applies, builds, passes the stable tests, "
           "demonstration fails with it and passes without) and then run against the checks.\n")
out.append("| change | property | caught by | needs |\n|---|---|---|---|")
for n, m in allseeds:
    out.append("| %s | %s | %s | %s |" % (n, m["property"], CAUGHT.get(n, m["property"] + " quick"), m["needs"].replace("|", "/").replace("\n", " ")))
out.append("\n" + open(os.path.join(V, "tools", "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "parts")
