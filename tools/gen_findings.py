#!/usr/bin/env python3
"""Writes known_findings.jsonl: open findings, then the fix: commits."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
OPEN = json.loads((V / 'tools/open_findings.json').read_text())
PROPS = json.loads((V / 'tools/fixed_props.json').read_text())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
                     stdout=subprocess.PIPE, text=True).stdout.splitlines()
lines = [json.dumps(item) for item in OPEN]
for line in log:
    commit, subject = line.split(' ', 1)
    if not subject.startswith('fix: '):
        continue
    what = subject[5:]
    props = PROPS.get(what)
    if props is None:
        raise SystemExit(f'no property for: {what}')
    for prop in props[0].split():
        lines.append(f'fixed: property={prop} {commit} {props[1]}')
(V / 'known_findings.jsonl').write_text('\n'.join(lines) + '\n')
print(len(lines), 'lines')
