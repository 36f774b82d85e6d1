"""Writes /verif/MANIFEST.json and properties.jsonl from bin/props.py and dev/properties.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "bin"), os.path.join(here, "dev")]
from props import PROPS
import properties as PP
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PP.P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PP.P:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} --tier quick", thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique=q.get("technique", "TLA+ specification model-checked with TLC; TLC-generated and seeded histories executed on the real code and every recorded event validated by TLC against the specification"),
                           level="model_checking", level_note=q["note"]))
    else:
        na.append(dict(property=i, reason=getattr(PP, "NA", {}).get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="All specifications are TLA+ (spec/), checked with TLC. Drivers (drivers/) run the code of /repo with /opt/venv/bin/python; no hooks were added to /repo. Known and fixed defects: known-findings.json.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
