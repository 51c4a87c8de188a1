#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, one section per property
(from properties.jsonl and the RULE/ASSUMPTIONS/SUBS of its module), then
tools/design_tail.md and the table of planted bugs (tools/bugs/results.json).
"""
import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
out = [(V / 'tools/design_head.md').read_text()]
out.append('\n## Properties and how each is decided\n')
for line in (V / 'properties.jsonl').read_text().splitlines():
    prop = json.loads(line)
    pid = prop['id']
    out.append(f"\n### {pid} {prop['title']}\n")
    path = V / 'zv' / 'props' / f'{pid.lower()}.py'
    if not path.exists():
        out.append('\nNot claimed yet: the check is not built.\n')
        continue
    values, subs = {}, []
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in (
                'RULE', 'ASSUMPTIONS'):
            values[node.targets[0].id] = ast.literal_eval(node.value)
        elif isinstance(node, ast.Assign) and node.targets[0].id == 'SUBS':
            for call in node.value.elts:
                subs.append([ast.unparse(a) for a in call.args])
    out.append('\n' + values['RULE'] + '\n')
    cost = '; '.join(f'`{s[0][1:-1]}` {s[3]}/{s[4]}' for s in subs)
    out.append(f'\n- cases per shard (8 shards), quick/thorough: {cost}\n')
    for item in values.get('ASSUMPTIONS', []):
        out.append(f'- assumption: {item}\n')
    out.append(f"- why tests cannot settle it: {prop['why_tests_cant']}\n")
out.append('\n' + (V / 'tools/design_tail.md').read_text())
res = V / 'tools/bugs/results.json'
rows = json.loads(res.read_text()) if res.exists() else {}
out.append('\n## Planted bugs and the checks that catch them\n\n'
           '| bug | property | needs | caught by | not caught by |\n'
           '|---|---|---|---|---|\n')
for path in sorted((V / 'seeded').iterdir()):
    meta = json.loads((path / 'meta.json').read_text())
    got = rows.get(path.name, {})
    out.append(f"| {path.name} | {meta['property']} | {meta['needs']} | "
               f"{' '.join(k for k, v in got.items() if v) or '-'} | "
               f"{' '.join(k for k, v in got.items() if not v) or '-'} |\n")
(V / 'DESIGN.md').write_text(''.join(out))
