"""Regenerates /verif/MANIFEST.json from the check modules and properties.jsonl."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from mc.run import load  # noqa

PY = '/opt/venv/bin/python -B -m mc.run'
checks, na = [], []
for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    if (ROOT / 'mc' / 'checks' / (p['id'].lower() + '.py')).exists():
        m = load(p['id'])
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s %s' % (PY, p['id']),
            'thorough_cmd': '%s %s --tier thorough' % (PY, p['id']),
            'technique': getattr(m, 'TECHNIQUE', 'model checking: exhaustive bounded enumeration of executions of the real '
                                 'code, each judged against an independent reference model'),
            'level': getattr(m, 'LEVEL', 'model_checking'),
            'level_note': 'Exhaustive within: %s. Oracle: %s. Assumes: %s' % (
                '; '.join('%s = %s' % kv for kv in m.BOUNDS('quick').items()), getattr(m, 'RULE', ''),
                '; '.join(getattr(m, 'ASSUMES', [])) or 'nothing beyond the bounds'),
        })
    else:
        na.append({'property': p['id'], 'reason': 'check under construction'})
out = {'version': 1, 'setup_cmd': PY + ' --list', 'checks': checks, 'not_applicable': na}
(ROOT / 'MANIFEST.json').write_text(json.dumps(out, indent=1, ensure_ascii=False) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
