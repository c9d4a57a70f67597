#!/usr/bin/env python3
"""writes DESIGN.md from lib/design_head.md, lib/design_p26.md, lib/design_tail.md, seeded/*/meta.json and known_findings.jsonl"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(H, "lib", f)).read()
caught = {}
for l in open(os.path.join(H, "lib", "caught.txt")):
    if l.strip():
        k, v = l.strip().split(" ", 1)
        caught[k] = v
out = [rd("design_head.md"), rd("design_p26.md"), rd("design_tail.md")]
out.append("## 6. Genuine defects found\n\nRepaired (each one \"fix:\" commit in /repo):\n\n")
known = []
for l in open(os.path.join(H, "known_findings.jsonl")):
    j = json.loads(l)
    if j["status"] == "fixed":
        t = j["text"].split(" ", 3)
        out.append("* %s `%s` %s\n" % (j["property"], t[2], t[3]))
    else:
        known.append(j)
out.append("\nRecorded, not repaired (the checks print a KNOWN-FINDING line for each):\n\n")
for j in known:
    out.append("* %s `%s`: %s\n" % (j["property"], j["id"], j["what"]))
out.append("\n## 7. Planted bugs and the checks that catch them\n\nEach was written from the property's text and the code; all pass the existing tests and have a demonstration.  "
           "\"strengthened\" marks bugs that the check at the time missed and that led to a larger space.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    j = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |\n" % (i, j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/"), caught.get(i, "?")))
open(os.path.join(H, "DESIGN.md"), "w").write("".join(out))
