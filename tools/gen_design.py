#!/usr/bin/env python3
"""DESIGN.md from its parts, the known findings and the planted bugs."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda p: open(os.path.join(root, p)).read()
out = r('tools/design_head.md') + r('tools/design_props.md')
out += "## Defects found and repaired\n\nEach is a `fix:` commit in /repo; the check that found it passes on the repaired tree and fails on the tree before.\n\n"
for l in r('known_findings.txt').splitlines():
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out += f"* {m[1]} `{m[2]}` — {m[3]}\n"
out += "\n" + r('tools/design_tail.md')
first = json.load(open(os.path.join(root, 'tools/first_missed.json')))
out += """
## Planted bugs

Each was written from a property's text and the code, builds, passes the existing tests and has a
demonstration. "first missed" ones led to the strengthening named; all others were caught by the check as it
was. The check of the bug's own property is the one that was run.

| bug | what breaks | needs | caught by |
| --- | --- | --- | --- |
"""
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.loads(r(f'seeded/{d}/meta.json'))
    c = m['property']
    e = lambda s: s.replace('|', '\\|')
    note = first.get(d)
    note = f"{c}" + (f" (first missed; {note})" if note else "")
    out += f"| {d} | {e(m['what_it_breaks'])} | {e(m['needs'])} | {note} |\n"
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
