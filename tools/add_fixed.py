"""Append entries to the fixed list of known_findings.json: add_fixed.py CNN HASH TEXT"""
import json,sys
p="/verif/known_findings.json"
d=json.load(open(p))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,"w"),indent=1,ensure_ascii=False); open(p,"a").write("\n")
