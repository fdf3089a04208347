"""Append a fixed entry to known_findings.json: addfixed.py PROP HASH text"""
import json, os, sys

F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(F))
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])))
json.dump(d, open(F, "w"), indent=1)
