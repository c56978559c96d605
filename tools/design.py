#!/usr/bin/env python3
"""Rewrites sections 5 to 7 of DESIGN.md from known_findings.txt, seeded/ and evidence/ (quick run)."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.chdir(root)
out = ["## 5. Defects found and repaired", "",
       "Each was reported by the check of its property on the original tree, shown against the real code (replay file), and",
       "repaired in its own `fix:` commit in `/repo`; the list is `known_findings.txt`. No finding is left unrepaired.", "",
       "| property | commit | what failed |", "|---|---|---|"]
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        out.append("| %s | %s | %s |" % (m[1], m[2], m[3].replace("|", "\\|")))
out += ["", "## 6. Planted bugs and what catches them", "",
        "Each is in `seeded/<id>/`, was written from the property's text and the code, passes the 40 tests, and fails its own",
        "demonstration. `caught by` is the quick check that reports it (its own property's, by construction of the list:",
        "a bug whose check missed it led to a stronger check, see *strengthened*).", "",
        "| bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (f.split("/")[1], m["property"], m["needs"].replace("|", "\\|")))
if os.path.exists("tools/strengthened.md"):
    out += ["", open("tools/strengthened.md").read().rstrip()]
out += ["", "## 7. Scenarios and sizes (quick)", "",
        "Executions and distinct observable histories of the last quick run; `bound` is the number of schedule deviations",
        "explored exhaustively (0: the scenario's choices are all free choices).", "",
        "| scenario | what is enumerated | bound | executions | histories |", "|---|---|---|---|---|"]
for f in sorted(glob.glob("evidence/C*.json")):
    e = json.load(open(f))
    for s in e["coverage"]["scenarios"]:
        out.append("| %s %s | %s | %s | %d | %d |" % (e["property"], s["scenario"], s["what"].replace("|", "\\|"), s["deviation_bound"], s["executions"], s["states"]))
d = open("DESIGN.md").read()
i = d.find("## 5. ")
d = (d[:i] if i >= 0 else d.rstrip() + "\n\n") + "\n".join(out) + "\n"
open("DESIGN.md", "w").write(d)
