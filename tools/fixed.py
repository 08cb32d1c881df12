#!/usr/bin/env python3
"""tools/fixed.py PID COMMIT TEXT: record a repaired defect in known_findings.json"""
import json, sys
import os; p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
k = json.load(open(p))
k["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(k, open(p, "w"), indent=1)
