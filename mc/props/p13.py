"""Closed-form inner moments of homogeneous solids against exact cubature."""
import itertools
import numpy as np
from mc import oracle as o
from mc.engine import explore
from mc import families as F

FAMS = F.INNER
LS = {'quick': [0, 1, 3, 6, 9], 'thorough': [0, 1, 2, 3, 4, 5, 6, 7, 10, 13]}
HIGH = {'quick': [20, 27], 'thorough': [20, 27, 34, 40]}
NPART = 3
AMOUNT = [1.0, 3, -.7]
TOL, TOLH, TOLN = 1e-9, 1e-9, 1e-8
PI = np.pi
EXACT = 99


def geos(f):
    ks = list(f.geo)
    for vs in itertools.product(*[f.geo[k] for k in ks]):
        g = dict(zip(ks, vs))
        if f.ok(**g):
            yield g


NEAR = {'quick': [1e-2, 1e-3, 1e-5, 1e-8], 'thorough': [3e-2, 1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8]}
THIN = {'quick': [1e-2, 7e-4, 1e-5, 1e2], 'thorough': [.1, 3e-2, 1e-2, 1e-3, 7e-4, 1e-4, 1e-5, 1e-6, 1e-7, 10, 1e2, 1e3]}
TOLT = 1e-11
ANGLES = {'phih': [0, PI/6, PI/4, PI/3, PI/2, 2*PI/3, 3*PI/4, PI], 'phic': [PI/2, -PI/2, PI, -PI, 2*PI, 0, PI/3],
          'theta': [0, PI/4, -PI/4]}


def near_geos(f, tier):
    """solids next to the special ones: two lengths nearly (or exactly) equal,
    in a simple ratio, or of very different size; angles close to the round ones"""
    gs = list(geos(f))
    step = max(1, len(gs)//5)
    bases = gs[step//2::step][:2 if tier == 'quick' else 4]
    size = [k for k in f.geo if k not in ('phic', 'phih', 'theta', 'N')]
    seen = set()
    ns = NEAR[tier]
    for g in bases:
        for kind, h in _near(f, g, size, ns, THIN[tier]):
            k = tuple(h.values())
            if k not in seen and all(v != 0 or g[n] == 0 for n, v in h.items() if n in size) and f.ok(**h) and physical(f, h):
                seen.add(k)
                yield kind, h


def physical(f, h):
    return not ('phih' in h and not 0 < h['phih'] <= (PI/2-1e-12 if f.name == 'tri_iso_prism2' else PI))


def _near(f, g, size, ns, thin):
    eps = [0.]+[s*d for d in ns for s in (1, -1)]
    for a in size:
        for b in size:
            if a != b:
                for ratio in (1, -1, .5, 2):
                    if g[b]*ratio < 0 and min(f.geo[a]) >= 0:
                        continue
                    for e in eps if ratio == 1 else eps[:3]:
                        yield 'ratio', dict(g, **{a: g[b]*ratio*(1+e)})
        for t in thin:
            yield 'thin', dict(g, **{a: g[a]*t})
    for a in size:
        # all lengths but one nearly equal
        for e in eps[:5]:
            yield 'ratio', dict(g, **{k: (1. if k != a else 1+e) for k in size})
    for a in ('phih', 'phic', 'theta'):
        if a in g:
            for v in ANGLES[a]:
                for e in eps:
                    yield 'angle', dict(g, **{a: v+e})


def tasks(tier, seed):
    t = []
    for i, f in enumerate(FAMS):
        k = max(1, sum(1 for _ in geos(f))//(40 if tier == 'quick' else 12))
        t += [(tier, seed, 'prod', i, f.name, j, k) for j in range(k)]
        t += [(tier, seed, 'high', i, f.name, 0, 1), (tier, seed, 'every', i, f.name, 0, 1), (tier, seed, 'mix', i, f.name, 0, 1)]
        t += [(tier, seed, 'near', i, f.name, j, NPART) for j in range(NPART)]
    return sorted(t, key=lambda x: x[2] not in ('high', 'every'))


def compare(rec, f, got, q, s, L, m, case, tol):
    if not rec.check(np.shape(got) == (L+1, 2*L+1), 'shape of the moments', case, np.shape(got)):
        return
    k = min(L, f.exact)
    w = np.zeros((L+1, 2*L+1), complex)
    n = min(L, len(q)-1)
    c = len(q)-1
    w[:n+1, L-n:L+n+1] = q[:n+1, c-n:c+n+1]
    rec.close(got[:k+1], (w*m)[:k+1], f'{f.name}: moments', case, np.abs(m)*s[:k+1]+0*w[:k+1].real, tol)


def run(task, rec):
    tier, seed, mode, i, _, part, parts = task
    body(rec, FAMS[i], tier, seed, mode, part, parts, LS[tier], HIGH[tier])


def body(rec, f, tier, seed, mode, part, parts, ls, high):
    if mode == 'prod':
        Lm = max(ls)
        gs = list(geos(f))
        if seed % 2:
            gs = gs[::-1]
        mine = gs[part::parts]
        cache = {}
        first = {}
        for sweep in (0, 1):
            for n, g in enumerate(mine if not sweep else mine[::-1]):
                key = tuple(g.values())
                if key not in cache:
                    cache[key] = F.reference(f, min(Lm, f.exact), g)
                q, s = cache[key]
                if len(s) <= Lm:
                    s = np.concatenate([s, np.ones((Lm+1-len(s), 1))])
                for L in ls:
                    for m in AMOUNT:
                        if sweep and m != 3:
                            continue
                        case = (f.name, L, m, g)
                        r = rec.call(f.fn, L, m, *g.values(), _case=case, _what=f.name)
                        rec.trace()
                        if not sweep:
                            rec.state(case)
                            rec.sample(moments=case)
                        compare(rec, f, r, q, s, L, m, case, TOL)
                        if isinstance(r, np.ndarray) and r.flags.writeable:
                            r.fill(1e5)
                        rec.trans()
    elif mode == 'near':
        L = min(6, f.exact)
        for n, (kind, g) in enumerate(near_geos(f, tier)):
            if n % parts != part:
                continue
            q, s = F.reference(f, L, g)
            case = (f.name, 'near', L, g)
            r = rec.call(f.fn, L, 2.0, *g.values(), _case=case, _what=f.name)
            rec.state(case)
            rec.trace()
            rec.trans()
            # a slender or thin solid is as well determined as any other; a small
            # difference of lengths is not
            tol = TOLN if kind == 'ratio' else TOLT
            if f.dens and (kind != 'thin' or f.name == 'cylhole2'):
                # rounding of the terms of a thin remainder of a large solid
                R = F.reach(f.body(L, **g)[0])
                s = s + (3e-14/tol*R**3*R**np.arange(L+1))[:, None]
            compare(rec, f, r, q, s, L, 2.0, case, tol)
    elif mode == 'high':
        gs = list(geos(f))
        for L in high:
            n = 2 if tier == 'quick' else 6
            for g in gs[7 % len(gs)::max(1, len(gs)//n)][:n]:
                Lr = min(L, f.exact)
                q, s = F.reference(f, Lr, g)
                case = (f.name, L, g)
                r = rec.call(f.fn, L, 2.0, *g.values(), _case=case, _what=f.name)
                rec.state(case)
                rec.trace()
                compare(rec, f, r, q, np.concatenate([s, np.ones((L+1-len(s), 1))]), L, 2.0, case, TOLH)
                rec.trans()
    elif mode == 'every':
        # every degree that may be asked for
        top = 36 if tier == 'quick' else 45
        gs = list(geos(f))
        for g in (gs[len(gs)//3], gs[2*len(gs)//3])[:1 if tier == 'quick' else 2]:
            q, s = F.reference(f, min(top, f.exact), g)
            for L in list(range(19))+[22, 25, 30, 33, 36] if tier == 'quick' else range(top+1):
                case = (f.name, 'every', L, g)
                r = rec.call(f.fn, L, 2.0, *g.values(), _case=case, _what=f.name)
                rec.state(case)
                rec.trace()
                rec.trans()
                compare(rec, f, r, q, s, L, 2.0, case, TOL if L < 14 else TOLH)
    elif mode == 'mix':
        # one solid, the other scalar types a caller passes, keywords, and
        # sizes over many orders of magnitude (the moments scale exactly)
        gs = list(geos(f))
        L = min(6, f.exact)
        sizes = [k for k in f.geo if k not in ('phic', 'phih', 'theta', 'N')]
        for g in gs[::max(1, len(gs)//12)]:
            q, s = F.reference(f, L, g)
            a = rec.call(f.fn, L, 2.0, *g.values(), _case=g, _what=f.name)
            for sc in (1e-3, 1e-6, 1e3):
                h = {k: (v*sc if k in sizes else v) for k, v in g.items()}
                case = (f.name, 'scaled', sc, g)
                r = rec.call(f.fn, L, 2.0, *h.values(), _case=case, _what=f.name)
                rec.state(case)
                rec.trace()
                rec.trans()
                pw = (sc**np.arange(L+1)*(sc**3 if f.dens else 1))[:, None]
                rec.close(r, 2*q*pw, f'{f.name}: moments', case, 2*s*pw+0*np.abs(q), TOL)
            for lab, cv in (('np.float64', np.float64), ('0d', lambda v: np.array(float(v))[()]), ('kw', None)):
                case = (f.name, lab, g)
                if cv:
                    h = {k: (cv(v) if k != 'N' else v) for k, v in g.items()}
                    r = rec.call(f.fn, L, cv(2), *h.values(), _case=case, _what=f.name)
                else:
                    r = rec.call(f.fn, L, 2., **g, _case=case, _what=f.name)
                rec.state(case)
                rec.trace()
                rec.close(r, 2*q, f'{f.name}: moments', case, 2*s+0*np.abs(q), TOL)
        # amounts from nanograms to planets, and the angles a section may point in
        for n, g in enumerate(gs[::max(1, len(gs)//4)]):
            for phic in [None]+([4.5, 7., 25., -30., -9, 3*PI, -PI/2] if 'phic' in g else []):
                h = g if phic is None else dict(g, phic=phic)
                q, s = F.reference(f, L, h)
                for a in (1e-9, 1e-4, 40., 2700, 8e3, -5e4, 1e9, np.float64(19.3), np.array(7.9), np.int64(11)) if phic is None else (2.7e3,):
                    case = (f.name, 'amount', repr(a), h)
                    r = rec.call(f.fn, L, a, *h.values(), _case=case, _what=f.name)
                    rec.state(case)
                    rec.trace()
                    rec.close(r, float(a)*q, f'{f.name}: moments', case, abs(float(a))*s+0*np.abs(q), TOL)
            for k in (1, 4):
                q, s = F.reference(f, k, g)
                for ty in (np.int64, np.int32):
                    case = (f.name, 'degree', ty.__name__, k, g)
                    r = rec.call(f.fn, ty(k), 2., *g.values(), _case=case, _what=f.name)
                    rec.trans()
                    rec.close(r, 2*q, f'{f.name}: moments', case, 2*s+0*np.abs(q), TOL)
        # a zero amount is a legitimate degenerate solid
        r = rec.call(f.fn, L, 0.0, *gs[0].values(), _case=(f.name, 'massless'), _what=f.name)
        rec.close(r, np.zeros((L+1, 2*L+1)), f'{f.name}: massless solid', gs[0], 1, 0)
