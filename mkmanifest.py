"""Writes MANIFEST.json from the registry."""
import json
from registry import PROPS, NOTES
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid}', thorough_cmd=f'python3 check.py {pid} --thorough',
                       evidence_file=f'evidence/{pid}.json',
                       technique=p.get('technique', 'TLA+ specification checked with TLC; TLC judges recorded traces of the real code'),
                       level='model_checking', level_note=NOTES.get(pid, NOTES['']) ))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[]),
          open('MANIFEST.json', 'w'), indent=1)
