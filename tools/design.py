#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from DESIGN.in.md, the harnesses' case numbers, the evidence of the last quick runs,
known_findings.txt and seeds.log (the output of seeded.py --check)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(os.path.join(V, "harness", "p_*.cpp")))
cases = {m[1]: (int(m[2]), int(m[3])) for m in re.finditer(r'p\.id = "(C\d\d)".*?p\.quick = (\d+); p\.thorough = (\d+)', src, re.S)}
costs = []
for i in range(1, 29):
    k = "C%02d" % i
    e = json.load(open(os.path.join(V, "evidence", k + ".json")))
    q, t = cases.get(k, (2000, 72000))
    costs.append("| %s | %s / %s | %.0f s |" % (k, format(q, ","), format(t, ","), e["wall_s"]) if e["tier"] == "quick" else "| %s | %s / %s | |" % (k, q, t))
kf = [l.rstrip("\n") for l in open(os.path.join(V, "known_findings.txt")) if l.strip() and not l.startswith("#")]
known = [re.match(r"known: property=(C\d\d) scenario=(\S+) (.*)", l) for l in kf if l.startswith("known:")]
fixed = [re.match(r"fixed: property=(C\d\d) (\w+) (.*)", l) for l in kf if l.startswith("fixed:")]
f = "Recorded, not repaired (`known_findings.txt`; each is re-run by its check, printed as KNOWN-FINDING, and identified by its scenario):\n\n"
f += "".join("- %s `%s`: %s\n" % m.groups() for m in known)
f += "\nRepaired, one `fix:` commit each (%d); reverting any of them (four no longer revert without conflicts) makes its check fail:\n\n" % len(fixed)
f += "\n".join("- %s %s %s" % (m[1], m[2][:7], m[3]) for m in fixed)
log = {}
for l in open(os.path.join(V, "tools", "seeds.log"), errors="replace"):
    m = re.match(r"(C\d\d-\S+) (.*?) \| C\d\d rc=(\d+) (.*)", l)
    if m: log[m[1]] = (m[3], re.sub(r"^C\d\d: (violation: )?", "", m[4]))
rows, missed = ["| change | what it breaks | reported |", "|---|---|---|"], 0
esc = lambda s: s.replace("|", "\\|").replace("<", "&lt;").replace("\n", " ")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rc, msg = log.get(i, ("?", "not run"))
    if rc != "1": missed += 1; msg = "**missed**" if rc == "0" else msg
    rows.append("| %s | %s (needs: %s) | %s |" % (i, esc(m["what_it_breaks"]), esc(m["needs"]), esc(msg[:130])))
s = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
s = s.replace("@@COSTS@@", "\n".join(costs)).replace("@@FINDINGS@@", f).replace("@@NFIX@@", str(len(fixed) + len(known))).replace("@@SEEDS@@", "%d changes, %d caught.\n\n" % (len(rows) - 2, len(rows) - 2 - missed) + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
print(len(rows) - 2, "seeds,", missed, "missed or not run")
