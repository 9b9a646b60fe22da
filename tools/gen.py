"""Writes properties.jsonl and MANIFEST.json from props_data.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props_data as d  # pylint: disable=g-import-not-at-top

root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
  for p in d.PROPS:
    p = dict(p)
    p.pop('check', None)
    p.pop('na', None)
    f.write(json.dumps(p) + '\n')
checks = []
na = []
for p in d.PROPS:
  if p.get('na'):
    na.append({'property': p['id'], 'reason': p['na']})
    continue
  checks.append({
      'property': p['id'],
      'quick_cmd': f"./check {p['id']} quick",
      'thorough_cmd': f"./check {p['id']} thorough",
      'technique': 'deterministic simulation with fault injection: '
                   + p['check']['technique'],
      'level': p['check'].get('level', 'exploration'),
      'level_note': p['check']['note'],
  })
m = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'hooks': {
        'guard': 'none',
        'enable': 'no hooks: every seam is a patch the simulator installs at '
                  'run time on the standard library, TensorFlow, TensorStore, '
                  'jax and clu; nothing in /repo is guarded',
        'source_commits': [],
    },
    'not_applicable': na,
    'notes': 'See DESIGN.md. ./check ID [quick|thorough]; '
             './check --replay FILE replays a violation exactly.',
}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
