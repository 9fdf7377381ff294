"""python tools/catch.py [bug ...]: runs, for each planted bug, the check of its property on a scratch copy with the bug (development aid; the
registered checks always run on /repo itself)."""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time

V = pathlib.Path(__file__).resolve().parent.parent
ids = sys.argv[1:] or sorted(p.name for p in (V / 'seeded').iterdir())
every = os.environ.get('ALL')
for i in ids:
    d = V / 'seeded' / i
    prop = json.loads((d / 'meta.json').read_text())['property']
    s = pathlib.Path('/tmp/catch') / i
    if s.exists():
        shutil.rmtree(str(s))
    s.parent.mkdir(exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', str(s)], check=True)
    subprocess.run(['git', 'apply', str(d / 'patch.diff')], cwd=str(s), check=True)
    res = []
    for p in [prop] + ([x.stem.upper() for x in sorted((V / 'mc' / 'checks').glob('c[0-9][0-9].py')) if x.stem.upper() != prop] if every else []):
        t = time.time()
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'mc.run', p, '--tier', os.environ.get('TIER', 'quick')], cwd=str(V), env=dict(os.environ, VERIF_REPO=str(s)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p == prop or r.returncode:
            res.append('%s rc=%d %.0fs' % (p, r.returncode, time.time() - t))
        if p == prop:
            msg = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('  case')]
            out = (msg or r.stdout.strip().splitlines()[-1:] or [''])[0][:150]
    f = V / 'tools' / 'catches.json'
    known = json.loads(f.read_text()) if f.exists() else {}
    known[i] = {'property': prop, 'by': [x.split()[0] for x in res if 'rc=1 ' in x], 'needs': json.loads((d / 'meta.json').read_text())['needs']}
    f.write_text(json.dumps({k: v for k, v in sorted(known.items()) if (V / 'seeded' / k).exists()}, indent=1, ensure_ascii=False) + '\n')
    print('%-20s %s | %s' % (i, ', '.join(res), out), flush=True)
    shutil.rmtree(str(s))
