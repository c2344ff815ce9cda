"""Writes MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

out = {'version': 1, 'setup_cmd': 'python3-vt tools/setup_check.py',
       'checks': [], 'not_applicable': []}
for p, c in PROPS.items():
    proved = bool(c['uses'])
    out['checks'].append({
        'property': p,
        'quick_cmd': 'python3-vt check.py %s' % p,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
        'technique': (
            'contract-based deductive verification of the functions in '
            '/repo that read the text (pyvc, z3); bounded stand-in for the '
            'lists of delimiters'
            if proved and c.get('level') == 'exploration' else
            'contract-based deductive verification of the functions in '
            '/repo (pyvc verification conditions, z3), with a search that '
            'looks for a failing input on the real code' if proved else
            'bounded stand-in: contracts checked on enumerated and random '
            'inputs of the real code'),
        'level': c.get('level') or ('proof' if proved else 'exploration'),
        'level_note': c.get('note') or (
            'see DESIGN.md' if proved else
            'bounded stand-in, not counted as proved; see DESIGN.md'),
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
