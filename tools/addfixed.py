"""tools/addfixed.py PROP COMMIT TEXT: note a repaired defect in known_findings.json."""
import json
import sys
p, c, t = sys.argv[1:4]
d = json.load(open("known_findings.json"))
d["fixed"].append("fixed: property=%s %s %s" % (p, c, t))
json.dump(d, open("known_findings.json", "w"), indent=1)
