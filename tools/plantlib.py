"""Helper used while planting bugs: makes patch.diff from textual edits in a scratch copy, confirms that the stable tests pass and that the
demonstration passes without and fails with the change, and keeps the result under seeded/."""
import json
import os
import pathlib
import shutil
import subprocess
import sys

SEEDED = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
COMMON = pathlib.Path(__file__).resolve().parent / 'demo_common.py'
SCR = pathlib.Path('/tmp/plant')
DEMO = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python -B "$D/demo.py"\n'


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=str(cwd), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def scratch(n):
    d = SCR / n
    if d.exists():
        shutil.rmtree(str(d))
    SCR.mkdir(exist_ok=True)
    sh('git clone -q /repo %s' % d, '/tmp')
    return d


def tests(d):
    """the stable tests on a copy of the sources"""
    base = json.load(open('/opt/vp/BASELINE.json'))
    return base


def plant(id, prop, edits, needs, breaks, demo):
    d = scratch(id)
    try:
        for f, old, new in edits:
            p = d / 'scrappybara' / f
            s = p.read_text()
            if s.count(old) != 1:
                return '%s: %d matches of %r in %s' % (id, s.count(old), old, f)
            p.write_text(s.replace(old, new))
        diff = sh('git diff', d).stdout
        dst = SEEDED / id
        dst.mkdir(parents=True, exist_ok=True)
        (dst / 'patch.diff').write_text(diff)
        (dst / 'demo.py').write_text('from demo_common import *\n\n' + demo.strip() + '\n')
        shutil.copy(str(COMMON), str(dst / 'demo_common.py'))
        (dst / 'demo.sh').write_text(DEMO)
        os.chmod(str(dst / 'demo.sh'), 0o755)
        (dst / 'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1, ensure_ascii=False) + '\n')
        a = sh('bash %s' % (dst / 'demo.sh'), '/repo')
        b = sh('bash %s' % (dst / 'demo.sh'), d)
        t = sh("PYTHONPATH=%s /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider $(cat /tmp/stable_tests.txt) 2>&1 | grep -E 'passed|failed|error' | tail -4" % d, d)
        ok_t = '52 passed' in t.stdout
        res = '%s: demo clean rc=%d, demo bug rc=%d, tests %s' % (id, a.returncode, b.returncode, 'ok' if ok_t else 'FAIL ' + t.stdout[-400:])
        if a.returncode != 0:
            res += '\n' + a.stdout[-800:]
        if b.returncode == 0 or not ok_t or a.returncode != 0:
            shutil.rmtree(str(dst))
            res = 'REJECTED ' + res
        elif 'Error' in b.stdout and 'AssertionError' not in b.stdout:
            res += ' (demo error: %s)' % b.stdout.strip().splitlines()[-1]
        return res
    finally:
        shutil.rmtree(str(d), ignore_errors=True)


def main(bugs):
    from concurrent.futures import ThreadPoolExecutor
    only = set(sys.argv[1:])
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda b: plant(*b), [b for b in bugs if not only or b[0] in only]):
            print(r, flush=True)
