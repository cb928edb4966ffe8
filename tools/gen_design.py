"""Refresh the per-property section of DESIGN.md from sa/meta.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from sa.meta import META, NA
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
A, B = "<!-- properties -->\n", "<!-- end -->\n"
out = [A, "## Per property\n\n"]
for l in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in META:
        m = META[i]
        out.append(f"**{i} {d['title']}.** {m['covers']}" + (" Assumes: " + " ".join(m["assumes"]) if m.get("assumes") else "") + f" Tests: {d['why_tests_cant']}\n\n")
    else:
        out.append(f"**{i} {d['title']}.** Not applicable: {NA.get(i, 'not built yet.')}\n\n")
out.append(B)
new = "".join(out)
s = s[:s.index(A)] + new + s[s.index(B) + len(B):] if A in s else s + new
open(p, "w").write(s)
