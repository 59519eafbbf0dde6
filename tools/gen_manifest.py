#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, re, glob
ids = [m for f in sorted(glob.glob('harness/src/props/c*.rs')) for m in re.findall(r'^\s*id: "(C\d\d)"', open(f).read(), re.M)]
NOTES = {}
exec(open('tools/notes.py').read())
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in ids:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="property-based testing: " + tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: everything is reached through the public API. See DESIGN.md; known_findings.txt lists repaired and known defects.")
json.dump(m, open('MANIFEST.json','w'), indent=1, ensure_ascii=False); open('MANIFEST.json','a').write('\n')
print(len(checks), "checks,", len(na), "not claimed")
