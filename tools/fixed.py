#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known-findings.json."""
import json, sys
V = "/verif"; p = V + "/known-findings.json"
d = json.load(open(p)); pr, c, w = sys.argv[1:4]
d["findings"].append({"status": "fixed", "property": pr, "commit": c, "signature": "", "what": f"fixed: property={pr} {c} {w}"})
open(p, "w").write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
