"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s quick" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: " + s["tech"],
                       "level": "exploration",
                       "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "python3 tools/vbuild.py --toolcheck",
     "checks": checks, "not_applicable": na,
     "notes": "Each check builds its harness and the HelFEM sources it needs from /repo's working tree into /verif/_build and runs generated cases. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
