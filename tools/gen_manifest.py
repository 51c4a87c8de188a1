#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
TECHNIQUE = {
    'C04': 'stateful model-based testing of write histories',
    'C12': 'fault injection enumerated over generated inserts, oracle = model',
    'C17': 'stateful model-based testing of view histories',
    'C18': 'stateful model-based testing of synchronisation histories',
    'C23': 'generated corruption faults against a readability oracle',
    'C25': 'generated operations and schedules with an instrumented lock and '
           'file system',
    'C26': 'differential testing over batch sizes, workers and chunkings',
    'C27': 'property-based testing against sets of instants',
}
LEVEL = {'C12': 'fault_enumeration', 'C23': 'fault_enumeration'}
NOTE = ('Generated-input search (Hypothesis) against an independent oracle: no '
        'counter-example in the cases of the evidence file; bounded sizes; '
        'assumptions are listed in the evidence file and in DESIGN.md.')
NOTES = {
    'C12': 'Every single storage-write failure point of each generated '
           'operation is enumerated (up to a cap per case); oracle = contents '
           'before/after.',
}
checks, missing = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    pid = json.loads(line)['id']
    if (V / 'zv' / 'props' / f'{pid.lower()}.py').exists():
        checks.append({
            'property': pid,
            'quick_cmd': f'./check.sh {pid}',
            'thorough_cmd': f'./check.sh {pid} --tier thorough',
            'technique': 'property-based testing: ' + TECHNIQUE.get(
                pid, 'generated cases against a reference model'),
            'level': LEVEL.get(pid, 'exploration'),
            'level_note': NOTES.get(pid, NOTE),
        })
    else:
        missing.append({'property': pid,
                        'reason': 'check not built yet (no claim)'})
manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the checks import the working tree of /repo '
             'and observe it through its public interface and wrapped fsspec '
             'file systems. Repairs are the "fix:" commits, listed in '
             'known_findings.jsonl.',
}
(V / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
