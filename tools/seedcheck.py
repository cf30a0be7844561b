"""Run checks against planted bugs in scratch copies (a development aid).
usage: seedcheck.py [--all] [--jobs N] [ID ...]   (--all: every property, not only the bug's own)"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/sc'


def check(sid, props, jobs):
    d = f'{W}/{sid}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    shutil.copytree('/repo', d+'/r', symlinks=True)
    for x in ('mc', 'known_findings.txt', 'properties.jsonl'):
        (shutil.copytree if os.path.isdir(f'{HERE}/{x}') else shutil.copy)(f'{HERE}/{x}', f'{d}/{x}')
    os.makedirs(d+'/evidence')
    subprocess.run(['git', 'apply', f'{HERE}/seeded/{sid}/patch.diff'], cwd=d+'/r', check=True)
    env = dict(os.environ, PYTHONPATH=f'{d}/r:{d}', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', VERIF_SEED='1', VERIF_TIER='quick')
    res = []
    for p in props:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'mc.main', p, '--jobs', str(jobs)], env=env, cwd=d, capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        res.append(f'{p}:{"caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "exit %d" % r.returncode}')
        if r.returncode not in (0, 1):
            print((r.stdout+r.stderr)[-500:])
    shutil.rmtree(d)
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    jobs = 8
    if '--jobs' in a:
        i = a.index('--jobs')
        jobs = int(a[i+1])
        del a[i:i+2]
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(HERE+'/seeded'))
    allp = [json.loads(l)['id'] for l in open(HERE+'/properties.jsonl')]
    for sid in ids:
        own = json.load(open(f'{HERE}/seeded/{sid}/meta.json'))['property']
        print(sid, *check(sid, allp if '--all' in a else [own], jobs), flush=True)
