#!/usr/bin/env python3
"""finding.py known PROP CASE LABEL WHAT  |  finding.py fixed PROP COMMIT WHAT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
a = sys.argv[1:]
if a[0] == "known":
    k["findings"].append(dict(property=a[1], case=a[2], label=a[3], status="known", what=a[4]))
else:
    k["findings"].append(dict(property=a[1], status="fixed", commit=a[2], what=f"fixed: property={a[1]} {a[2]} {a[3]}"))
json.dump(k, open(p, "w"), indent=1)
