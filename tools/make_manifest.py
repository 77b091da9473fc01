"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mon import engine, registry  # noqa: E402

engine.load()
TECH = 'runtime monitoring: online oracle in exact arithmetic over events of generated workloads'
NOTE = ('Held on the executions generated (see evidence: events decided, distinct operands, verdict kinds); says nothing about inputs the '
        'workload never drives, nor about events within the stated tolerance of a documented boundary, which are counted as skipped.')
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    conf = registry.PROPS.get(p['id'])
    if conf is None:
        na.append({'property': p['id'], 'reason': 'The check is still being built.'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f'python3 -B run.py {p["id"]}', 'thorough_cmd': f'python3 -B run.py {p["id"]} thorough',
                   'technique': conf.get('technique', TECH), 'level': 'exploration', 'level_note': conf.get('level_note', NOTE)})
manifest = {'version': 1, 'setup_cmd': 'python3 -B run.py --setup', 'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
