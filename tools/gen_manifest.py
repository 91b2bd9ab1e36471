#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has a check in harness/props is claimed."""
import json, glob, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(here + "/harness/props/*_test.go"))
done = set(re.findall(r"func Test(C\d\d)_", src))
exec(open(here + "/tools/techniques.py").read())
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line); i = p["id"]
    if i in done:
        tech, note = TECH.get(i, ("property-based testing", ""))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=tech, level="exploration",
            level_note=note + " Assurance is limited to the generated cases (counts, classes and samples in the evidence file); trusts the Go toolchain, the rapid library and the harness's own models."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: every check uses the public packages or the built executable. Fixed defects and known findings are listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed", len(na), "not")
