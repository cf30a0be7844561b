"""Bounded explicit-state exploration of the real code.

Two kinds of exploration are offered; both drive the implementation itself and
compare every visited state with an independent reference model:

* `explore`  - the state space is the full product of finite parameter
  alphabets (a configuration graph).  Every configuration is executed and
  judged against the oracle; every edge (one parameter moved to the next value
  of its alphabet) is checked with a relation between the two results; then
  the whole space is walked a second time in the opposite order, after the
  results of the first walk have been overwritten by the caller, which makes
  any dependence on the history of calls visible.

* `bfs`      - breadth-first search over histories of operations applied to a
  real object in lock-step with a model of it, with canonical state hashing.

`Rec` gathers the counts and the violations of one task; `run_check` forks the
tasks over the cores and merges them.
"""
import hashlib
import itertools
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import numpy as np

EVID = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'evidence')
MAXFAIL = 40


class ImplError(Exception):
    """the code under test raised on a valid input (or failed to reject)"""


class Hang(Exception):
    pass


def h64(key):
    if not isinstance(key, bytes):
        key = repr(key).encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big')


def canon(a, digits=9):
    """canonical bytes of a numeric array for hashing reached states: values
    are rounded so that equal states reached by different float paths meet."""
    a = np.asarray(a)
    if a.size == 0:
        return repr(a.shape).encode()
    a = np.stack([a.real, a.imag]) if np.iscomplexobj(a) else a
    return repr(a.shape).encode()+(np.round(a.astype(float), digits)+0.0).tobytes()


def short(v, n=200):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n]+'...'


class Rec:
    def __init__(self, task=None):
        self.states = set()
        self.ntrans = 0
        self.ntraces = 0
        self.samples = []
        self.fails = []
        self.nfails = 0
        self.task = task
        self.errors = []
        self.maxdev = 0.0
        self.bykind = {}
        self.perwhat = {}

    # ---- counts
    def state(self, key):
        """count a state; True when it had not been seen in this task"""
        h = h64(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def trans(self, n=1):
        self.ntrans += n

    def trace(self, n=1):
        self.ntraces += n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v) for k, v in kw.items()})

    # ---- verdicts
    def fail(self, what, case, msg=''):
        self.nfails += 1
        n = self.perwhat.get(what, 0)
        self.perwhat[what] = n+1
        if n < 6 and len(self.fails) < MAXFAIL:
            self.fails.append({'what': what, 'case': short(case, 600),
                               'msg': short(msg, 600), 'task': short(self.task, 300)})

    def close(self, got, want, what, case, scale=None, tol=1e-9, shape=True):
        """got == want within tol*scale (scale defaults to max|want|)."""
        self.ntrans += 0
        try:
            g = np.asarray(got)
            if g.dtype == object:
                raise TypeError('object array')
            g = g.astype(complex)
        except Exception as e:
            self.fail(what, case, f'result is not numeric: {short(got)} ({e})')
            return False
        w = np.asarray(want).astype(complex)
        if shape and g.shape != w.shape:
            self.fail(what, case, f'shape {g.shape}, expected {w.shape}')
            return False
        if not np.all(np.isfinite(g)):
            self.fail(what, case, f'non-finite result {short(got)}, expected {short(want)}')
            return False
        if scale is None:
            scale = np.max(np.abs(w)) if w.size else 0.0
        scale = np.asarray(scale, dtype=float)
        if g.size == 0:
            return True
        dev = np.abs(g-w)
        lim = tol*scale+1e-300
        bad = dev > lim
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, dev/lim, 0)), dev.shape)
            self.fail(what, case, f'at {tuple(int(k) for k in i)}: got {g[i]!r}, '
                      f'expected {w[i]!r}, allowed {np.broadcast_to(lim, dev.shape)[i]:.3g}')
            return False
        self.maxdev = max(self.maxdev, float(np.max(dev/lim)))
        return True

    def check(self, cond, what, case, msg=''):
        if not cond:
            self.fail(what, case, msg)
        return bool(cond)

    def call(self, fn, *a, _case=None, _what=None, **k):
        """call the implementation; arguments that are arrays must come back
        unchanged; an exception is a violation."""
        before = [(x, x.copy()) for x in list(a)+list(k.values())
                  if isinstance(x, np.ndarray)]
        name = _what or getattr(fn, '__name__', str(fn))
        try:
            r = fn(*a, **k)
        except Hang:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb[-2:]]
            self.fail(f'{name}: exception', _case if _case is not None else [short(x, 80) for x in a],
                      f'{type(e).__name__}: {e} at {where}')
            raise ImplError(str(e))
        for x, c in before:
            if not (x.shape == c.shape and
                    np.array_equal(x.view(np.uint8) if x.flags.c_contiguous and x.ndim else x,
                                   c.view(np.uint8) if x.flags.c_contiguous and x.ndim else c)):
                if not (np.asarray(x == c) | ((x != x) & (c != c))).all():
                    self.fail(f'{name}: argument modified',
                              _case if _case is not None else [short(y, 80) for y in a],
                              f'{short(c)} became {short(x)}')
        return r

    def merge(self, o):
        self.states |= o.states
        self.ntrans += o.ntrans
        self.ntraces += o.ntraces
        self.samples = (self.samples+o.samples)[:6]
        self.nfails += o.nfails
        self.fails = (self.fails+o.fails)[:MAXFAIL*4]
        self.errors += o.errors
        self.maxdev = max(self.maxdev, o.maxdev)
        for k, v in o.bykind.items():
            self.bykind[k] = self.bykind.get(k, 0)+v


# ---------------------------------------------------------------------------
def _copyres(r):
    if isinstance(r, np.ndarray):
        return r.copy()
    if isinstance(r, (tuple, list)):
        return tuple(_copyres(x) for x in r)
    return r


def _scribble(r):
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind in 'fc':
            r.fill(7.25e3)
    elif isinstance(r, (tuple, list)):
        for x in r:
            _scribble(x)


def same_result(rec, a, b, what, case, tol=1e-10):
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            rec.fail(what, case, 'different structure')
            return False
        return all([same_result(rec, x, y, what, case, tol) for x, y in zip(a, b)])
    if a is None or isinstance(a, (str, bool)):
        return rec.check(a == b, what, case, f'{short(a)} then {short(b)}')
    A, B = np.asarray(a), np.asarray(b)
    if A.shape != B.shape:
        rec.fail(what, case, f'shape {A.shape} then {B.shape}')
        return False
    if A.size == 0:
        return True
    ok = (A == B) | ((A != A) & (B != B))
    with np.errstate(all='ignore'):
        sc = np.max(np.abs(np.where(np.isfinite(A), A, 0)))
        ok |= np.abs(A-B) <= tol*sc
    if not np.all(ok):
        rec.fail(what, case, f'first {short(A[~ok][:3])}, later {short(B[~ok][:3])}')
        return False
    return True


def explore(rec, name, alph, run, judge, relations=None, revisit=True,
            skip=None, order=0, revisit_tol=1e-10):
    """see module docstring.  alph: dict param -> list of values (values may
    be (label, value) pairs via L(...)).  run(cfg) -> result of the real code,
    judge(cfg, result), relations: {param: fn(cfg1, res1, cfg2, res2)}."""
    names = list(alph)
    vals = [list(alph[n]) for n in names]
    res = {}
    relations = relations or {}
    idxs = list(itertools.product(*[range(len(v)) for v in vals]))
    if order % 2:
        idxs = idxs[::-1]

    def cfg_of(ix):
        return {n: v[i] for n, v, i in zip(names, vals, ix)}

    done = []
    for ix in idxs:
        cfg = cfg_of(ix)
        if skip and skip(cfg):
            continue
        case = {k: short(v, 120) for k, v in cfg.items()}
        rec.state((name, ix))
        try:
            r = run(cfg)
        except ImplError:
            continue
        rec.trace()
        res[ix] = _copyres(r)
        if revisit:
            _scribble(r)
        judge(cfg, res[ix], case)
        done.append(ix)
        rec.sample(space=name, configuration=case)
    pos = {n: k for k, n in enumerate(names)}
    for ix in done:
        for n in names:
            k = pos[n]
            jx = ix[:k]+(ix[k]+1,)+ix[k+1:]
            if jx in res:
                rec.trans()
                if n in relations:
                    c1, c2 = cfg_of(ix), cfg_of(jx)
                    relations[n](c1, res[ix], c2, res[jx],
                                 {'from': {k: short(v, 100) for k, v in c1.items()}, n: short(c2[n])})
    if revisit:
        for ix in reversed(done):
            cfg = cfg_of(ix)
            case = {k: short(v, 120) for k, v in cfg.items()}
            try:
                r = run(cfg)
            except ImplError:
                continue
            rec.trace()
            same_result(rec, res[ix], _copyres(r), f'{name}: result depends on earlier calls', case, revisit_tol)
            _scribble(r)
    return res


class NotApplicable(Exception):
    """raised by an operation that is not enabled in a state"""


def bfs(rec, name, init, ops, apply_op, key, depth, check=None, maxstates=10**7):
    """breadth-first search.  init: list of (label, state); ops(state) -> list
    of op labels; apply_op(state, op, hist) -> new state (drives both the real
    code and the model and records violations); key(state) -> canonical bytes."""
    seen = set()
    frontier = []
    for lab, s in init:
        k = key(s)
        if k not in seen:
            seen.add(k)
            rec.state((name, k))
            frontier.append((s, (lab,)))
            if check:
                check(s, (lab,))
    for d in range(depth):
        nxt = []
        for s, hist in frontier:
            for op in ops(s):
                h2 = hist+(op,)
                try:
                    s2 = apply_op(s, op, h2)
                except (ImplError, NotApplicable):
                    continue
                rec.trans()
                rec.trace()
                if s2 is None:
                    continue
                k = key(s2)
                if k in seen:
                    continue
                seen.add(k)
                rec.state((name, k))
                if check:
                    check(s2, h2)
                rec.sample(space=name, history=h2)
                if len(seen) < maxstates:
                    nxt.append((s2, h2))
        frontier = nxt
        if not frontier:
            break
    return len(seen)


# ---------------------------------------------------------------------------
def _alarm(sig, frm):
    raise Hang()


def _one(mod, task, limit):
    rec = Rec(task)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    np.seterr(all='ignore')
    try:
        mod.run(task, rec)
    except Hang:
        rec.fail('no answer', task, f'no result within {limit} s')
    except ImplError:
        pass
    except MemoryError:
        rec.errors.append(f'{task}: out of memory')
    except OSError:
        rec.errors.append(f'{short(task)}: {traceback.format_exc()}')
    except Exception as e:
        # every harness runs clean on conforming results: an exception here
        # means that the code returned something the model cannot interpret
        rec.fail('result cannot be interpreted', task,
                 f'{type(e).__name__}: {e} '+traceback.format_exc()[-500:])
    finally:
        signal.alarm(0)
    return rec


def run_tasks(mod, tasks, jobs, limit, failfast=False):
    total = Rec()
    jobs = max(1, min(jobs, len(tasks)))
    if jobs == 1:
        for t in tasks:
            total.merge(_one(mod, t, limit))
            if failfast and total.fails:
                break
        return total
    r, w = os.pipe()
    os.write(w, b''.join(i.to_bytes(4, 'big') for i in range(len(tasks))))
    os.close(w)
    tmp = tempfile.mkdtemp(prefix='vmc-')
    pids = []
    for j in range(jobs):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                rec = Rec()
                while True:
                    b = os.read(r, 4)
                    if len(b) < 4:
                        break
                    rec.merge(_one(mod, tasks[int.from_bytes(b, 'big')], limit))
                with open(os.path.join(tmp, str(j)), 'wb') as f:
                    pickle.dump(rec, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids.append((pid, j))
    os.close(r)
    for pid, j in pids:
        _, st = os.waitpid(pid, 0)
        p = os.path.join(tmp, str(j))
        if st == 0 and os.path.exists(p):
            with open(p, 'rb') as f:
                total.merge(pickle.load(f))
            os.unlink(p)
        else:
            total.errors.append(f'worker {j} died with status {st}')
    os.rmdir(tmp)
    return total


def load_known(path):
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                out.append(d)
    return out


def jdump(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path+'.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, path)
