#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT TEXT   record a repaired defect"""
import sys, json
p = "/verif/known_findings.json"
d = json.load(open(p))
prop, commit, text = sys.argv[1:4]
d["findings"].append(dict(property=prop, status="fixed", commit=commit, text="fixed: property=%s %s %s" % (prop, commit, text)))
json.dump(d, open(p, "w"), indent=1)
