"""Write MANIFEST.json from sa/meta.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from sa.meta import META, NA, TECH
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in META:
        m = META[i]
        note = m["covers"] + " Verdict: violation only where the two terms provably differ at a witness valuation; what cannot be decided is listed as undecided in the evidence and never alarms. Trusted: the term normaliser and the numpy/scipy models of sa/; real arithmetic instead of floating point."
        if m.get("assumes"):
            note += " Assumes: " + " ".join(m["assumes"])
        checks.append(dict(property=i, quick_cmd=f"python3 -m sa.check {i} --tier quick", thorough_cmd=f"python3 -m sa.check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=m.get("technique", TECH), level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built yet.")))
doc = dict(version=1, setup_cmd="python3 -m compileall -q sa", checks=checks, not_applicable=na,
           notes="All checks read /repo's current source; nothing of bfit is imported or executed. Standard-library Python only.")
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
