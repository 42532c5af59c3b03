"""Writes /verif/MANIFEST.json from the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
from manifest_table import CHECKS, NOT
checks = []
for p in props:
    i = p['id']
    if i in CHECKS:
        cmd, tech, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 checks/' + cmd, thorough_cmd='VERIF_TIER=thorough python3 checks/' + cmd,
                           technique=tech, level='model_checking', level_note=note))
na = [dict(property=p['id'], reason=NOT.get(p['id'], 'no check built yet')) for p in props if p['id'] not in CHECKS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check explores a TLA+ specification with TLC, replays behaviours of it into the real code and lets TLC decide the recorded traces. No hooks are needed in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
