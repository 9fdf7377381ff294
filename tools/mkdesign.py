"""Regenerates the per-property part of DESIGN.md from the check modules, the last evidence files and the committed catch matrix (tools/catches.json)."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from mc.run import load  # noqa

MARK = '## Per property (generated by tools/mkdesign.py)\n'
text = (ROOT / 'DESIGN.md').read_text().split(MARK)[0]
out = [MARK]
old = {}
if (ROOT / 'tools' / 'costs.json').exists():
    old = json.loads((ROOT / 'tools' / 'costs.json').read_text())
for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    m = load(p['id'])
    out.append('### %s %s' % (p['id'], p['title']))
    out.append('*Space and method.* %s' % (m.__doc__ or '').strip().replace('\n', ' '))
    b, t = m.BOUNDS('quick'), m.BOUNDS('thorough')
    out += ['- %s: %s%s' % (k, v, '' if t.get(k) == v or k not in t else ' [thorough: %s]' % t[k]) for k, v in b.items()]
    out.append('\n*Oracle.* %s' % getattr(m, 'RULE', ''))
    if getattr(m, 'ASSUMES', None):
        out.append('*Not judged / assumed.* ' + '; '.join(m.ASSUMES))
    if p['id'] in old:
        out.append('*Cost (8 cores).* ' + old[p['id']])
    out.append('')
cat = ROOT / 'tools' / 'catches.json'
if cat.exists():
    out.append('## Planted bugs and the checks that catch them')
    out.append('| bug | property | caught by | needs |\n|---|---|---|---|')
    c = json.loads(cat.read_text())
    for k in sorted(c):
        out.append('| %s | %s | %s | %s |' % (k, c[k]['property'], ', '.join(c[k]['by']) or '**missed**', c[k]['needs'].replace('|', '/')))
    out.append('')
(ROOT / 'DESIGN.md').write_text(text + '\n'.join(out) + '\n')
