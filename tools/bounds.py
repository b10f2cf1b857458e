"""Writes BOUNDS.md: every case with its variants and its bounds, from the cases themselves."""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from engine import setup_path, registry  # noqa
import json

props = {}
for c in registry.load().values():
    name, _, rest = c.key.split('/', 1)[1].partition('[')
    props.setdefault(c.prop, {}).setdefault(name, []).append((rest[:-1] if rest else '', c))
titles = {}
for x in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(x)
    titles[p['id']] = p['title']
out = ['# Bounds of every case', '',
       'Written by tools/bounds.py from the cases in props/. Variants marked (thorough) run only in the thorough tier.', '']
for p in sorted(props):
    out += [f'## {p} {titles[p]}', '']
    for name, vs in props[p].items():
        doc = ' '.join(vs[0][1].opts['bounds'].split())
        tags = [(k + (' (thorough)' if c.opts['tier'] == 'thorough' else '')) for k, c in vs if k]
        out.append(f'- **{name}**: {doc}' + (f'. Variants: {", ".join(tags)}' if tags else ''))
    out.append('')
open(os.path.join(here, 'BOUNDS.md'), 'w').write('\n'.join(out))
print(sum(len(v) for v in props.values()), 'cases')
