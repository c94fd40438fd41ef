#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props_data.py and registry.py"""
import json, os, subprocess
from props_data import P
from registry import PROPS
NA = {}
os.chdir(os.path.dirname(os.path.abspath(__file__)))
out, checks = [], []
for (i, title, st, over, qt, why, files, mech, note) in sorted(P):
    assert len(title) <= 80, (i, len(title))
    assert st.count(". ") <= 2, (i, st.count(". "))
    for f in files: assert os.path.exists("/repo/" + f), f
    out.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}})
    assert i in PROPS, i
    eng = {p["engine"] for p in PROPS[i]["parts"]}
    tech = {"cx": "stateless model checking of the real code: all thread schedules within a preemption bound, happens-before state merging",
            "seq": "explicit bounded enumeration of operation/fault sequences on the real code against a reference model"}
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py --thorough " + i,
                   "technique": "; ".join(tech[e] for e in sorted(eng)), "level": "model_checking", "level_note": note})
assert {c["property"] for c in checks} == set(PROPS), set(PROPS) - {c["property"] for c in checks}
open("properties.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")

# the generated parts of DESIGN.md
import re, glob
s = open("DESIGN.md").read()
rows = ["| planted bug | property (caught by its check) | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    j = json.load(open(f))
    missed = j.get("missed")
    rows.append("| %s | %s%s | %s |" % (f.split("/")[1], j["property"], " (missed: %s)" % missed if missed else "", j["what_it_breaks"].replace("|", "/")))
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
n = sum(l.startswith("fixed:") for l in open("known_findings.txt"))
s = re.sub(r"<!-- fixed -->.*?<!-- /fixed -->", "<!-- fixed -->%d<!-- /fixed -->" % n, s)
open("DESIGN.md", "w").write(s)
