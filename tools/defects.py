#!/usr/bin/env python3
"""rewrites the section "Repaired, by property" of DESIGN.md from known_findings.json"""
import json, re
D = "/verif/DESIGN.md"
d = json.load(open("/verif/known_findings.json"))["findings"]
by = {}
for f in d:
    if f.get("status") == "fixed": by.setdefault(f["property"], []).append(f)
txt = "Repaired, by property:\n\n"
for p in sorted(by):
    ls = []
    for f in by[p]:
        t = f["text"].split(" ", 3)[3].split(";")[0].strip()
        t = t if len(t) < 125 else t[:122].rsplit(" ", 1)[0] + " …"
        ls.append("%s (%s)" % (t, f["commit"]))
    txt += "* **%s** (%d): %s.\n" % (p, len(ls), "; ".join(ls))
s = open(D).read()
i = s.index("Repaired, by property:"); j = s.find("\n## ", i)
s = s[:i] + txt + (s[j:] if j >= 0 else "")
s = re.sub(r"\n\d+ defects of the original program were repaired", "\n%d defects of the original program were repaired" % sum(map(len, by.values())), s)
open(D, "w").write(s)
