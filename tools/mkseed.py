"""Build the planted bugs of /verif/seeded from tools/seedspec.py (a development
aid, no check reads it).  usage: mkseed.py [--tests] [ID ...]
Every bug: replace old -> new in a scratch copy, write the diff, run the demo on
the clean and on the changed copy, and (--tests) the repository's stable tests."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from multiprocessing.pool import ThreadPool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import seedspec
W = '/tmp/seed'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
PYDEMO = '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=timeout)


def one(sid, tests):
    s = seedspec.SEEDS[sid]
    d, out = f'{W}/{sid}', f'{HERE}/seeded/{sid}'
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True)
    os.makedirs(out, exist_ok=True)
    open(f'{out}/demo.sh', 'w').write(s.get('sh', PYDEMO))
    os.chmod(f'{out}/demo.sh', 0o755)
    for name, text in s['files'].items():
        open(f'{out}/{name}', 'w').write(text.lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
    run = f'bash {out}/demo.sh'
    clean = sh(run, d)
    msg = []
    if clean.returncode:
        msg.append('DEMO FAILS CLEAN '+(clean.stdout+clean.stderr)[-300:])
    for f, old, new in s['edits']:
        p = f'{d}/{f}'
        t = open(p).read()
        if t.count(old) != s.get('count', 1):
            return sid, [f'{t.count(old)} occurrences of {old!r}']
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', d).stdout
    open(f'{out}/patch.diff', 'w').write(diff)
    bad = sh(run, d)
    if bad.returncode == 0:
        msg.append('DEMO PASSES WITH THE BUG')
    msg.append('demo says: '+(bad.stdout+bad.stderr).strip().split('\n')[-1][:160])
    if tests:
        if any(f.endswith('.m') for f, _, _ in s['edits']):
            msg.append('octave: test by hand')
        sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize -n 2 --timeout=200 '
           f'--continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}/j.xml newt', d)
        failed = set()
        for c in ET.parse(f'{d}/j.xml').iter('testcase'):
            if c.find('failure') is not None or c.find('error') is not None:
                failed.add(c.get('classname')+'::'+c.get('name'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        f = sorted(failed & stable)
        msg.append('TESTS FAIL '+str(f) if f else f'tests ok ({len(failed)} unstable fail)')
    shutil.rmtree(d)
    return sid, msg


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    ids = a or list(seedspec.SEEDS)
    with ThreadPool(4) as p:
        for sid, msg in p.imap_unordered(lambda i: one(i, '--tests' in sys.argv), ids):
            print(sid, '|', ' | '.join(msg), flush=True)
