"""entry point: python -m mc.main <property> [--tier T] [--jobs N]
[--replay FILE] [--only SUBSTRING]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--failfast', action='store_true')
    if '--selftest' in sys.argv:
        from mc.selftest import main as st
        return st()
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    pid = a.pid
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    scratch = tempfile.mkdtemp(prefix='vmc-cwd-')
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    code = 2
    try:
        code = go(pid, tier, seed, a, here)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return code


def go(pid, tier, seed, a, here):
    from mc import engine as E
    t0 = time.time()
    # the code under test prints diagnostics; keep our stdout clean
    real = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    try:
        mod = importlib.import_module(f'mc.props.{pid.lower()}')
    except Exception as e:
        import traceback
        traceback.print_exc()
        os.dup2(real, 1)
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(t.filename.startswith('/repo/') for t in tb)
        if inrepo:
            p = os.path.join(here, 'evidence', f'{pid}-replay.json')
            E.jdump(p, {'what': 'import', 'msg': repr(e)})
            print(f'VIOLATION property={pid} replay={p}')
            return 1
        return 2
    tasks = list(mod.tasks(tier, seed))
    if a.replay:
        import json
        d = json.load(open(a.replay))
        want = {f['task'] for f in d.get('failures', [])}
        tasks = [t for t in tasks if E.short(t, 300) in want] or tasks
    if a.only:
        tasks = [t for t in tasks if a.only in repr(t)]
    # rotate the schedule of tasks with the seed; the explored set is the same
    k = seed % max(1, len(tasks))
    limit = getattr(mod, 'LIMIT', 600) if tier == 'quick' else 6*3600
    rec = E.run_tasks(mod, tasks, a.jobs, limit, a.failfast)
    os.dup2(real, 1)
    known = [d for d in E.load_known(os.path.join(here, 'known_findings.txt'))
             if d.get('property') == pid]
    new, hit = [], {}
    for f in rec.fails:
        for i, d in enumerate(known):
            if d['what'] in f['what'] and d['case'] in f['case']:
                hit[i] = d
                break
        else:
            new.append(f)
    wall = time.time()-t0
    cov = {'states': len(rec.states), 'transitions': rec.ntrans,
           'traces_validated_against_impl': rec.ntraces,
           'samples': rec.samples, 'exhaustive': True, 'tasks': len(tasks)}
    cov.update(rec.bykind)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUME', [])),
          'wall_s': round(wall, 2), 'violations': rec.nfails if new else 0}
    E.jdump(os.path.join(here, 'evidence', f'{pid}.json'), ev)
    for d in hit.values():
        print(f"KNOWN-FINDING: property={pid} {d['text']}")
    print(f'{pid} {tier}: {len(rec.states)} states, {rec.ntrans} transitions, '
          f'{rec.ntraces} traces, worst deviation/tolerance {rec.maxdev:.2g}, {wall:.1f} s')
    if rec.errors:
        for e in rec.errors[:5]:
            print('CHECK-ERROR', e, file=sys.stderr)
        if not new:
            return 2
    if new:
        p = os.path.join(here, 'evidence', f'{pid}-replay.json')
        E.jdump(p, {'property': pid, 'tier': tier, 'seed': seed, 'failures': new,
                    'rerun': f'./run.sh {pid} --tier {tier} --replay {p}'})
        for f in new[:6]:
            print('  ', f['what'], '|', f['case'][:300], '|', f['msg'][:300])
        print(f'VIOLATION property={pid} replay={p}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
