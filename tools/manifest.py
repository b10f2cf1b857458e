"""Writes MANIFEST.json from the properties and the cases that exist."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from engine import setup_path, registry  # noqa

PY = '/opt/venv/bin/python check.py'
NA = {}
NOTE = ('Every path of the real functions within the stated bounds, decided by z3 over exact reals; transcendental functions '
        'and the third-party libraries are models (see DESIGN.md). Counterexamples are reported only after the real package '
        'reproduces them. Rounding, overflow and sizes beyond the bounds are not covered.')
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
cases = registry.load()
have = {c.prop for c in cases.values()}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd=f'{PY} {i} --tier quick', thorough_cmd=f'{PY} {i} --tier thorough',
                           technique='symbolic execution of the Python/Cython source with z3 deciding the obligations',
                           level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --list', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks are needed in /repo.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
