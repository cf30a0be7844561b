"""Outer moments of solids."""
import itertools
import numpy as np
from mc import oracle as o
from mc import families as F
from mc.engine import explore
import newt.bigQlm as bq
import newt.bigQlmNum as bqn

PI = np.pi
MS = np.arange(-5, 6)
ASSUME = ['the numerical integrals are held to the tolerance their adaptive quadrature asks for (1.5e-8 per integral)']


def sphere_ref(L, dens, R, x, y, z):
    return o.outer(L, [[dens*4/3*PI*R**3, x, y, z]])


POS = [(1., 0, 0), (0, 1, 0), (0, 0, 1.), (0, 0, -2.), (-1., 0, 0), (0, -.5, 0), (.3, .4, .5), (-.3, .4, -.5), (.3, -.4, .5), (-.3, -.4, .5), (2, -1, 3),
       (1e-3, 0, 1.), (100., 20, -40), (.02, .01, -.03), (1e-5, 0, 1.), (0, -1e-5, -2.), (-1e-6, 1e-6, .7), (1., 1e-5, 0), (-1., -1e-7, 1e-5), (1e-7, 1., 0),
       (-1, 1e-9, -1), (1, 1, 1e-9), (1e-4, 2e-4, -.5)]
NUM = {
    'annulus': (bqn.annulus, ('h1', 'h2', 'IR', 'OR', 'phih'), dict(h1=[-.3, .2, -1, 0, .5], h2=[.4, 1, 2.1], IR=[.5, 1, .8], OR=[1.2, 2, 1.5], phih=[.4, PI/2, PI, 2.2]),
                lambda g: g['h1'] < g['h2'] and g['IR'] < g['OR'], lambda L, g: F.ring(L, g['h1'], g['h2'], g['IR'], g['OR'], 0, g['phih'])),
    'annulus above': (bqn.annulus, ('h1', 'h2', 'IR', 'OR', 'phih'), dict(h1=[.5, 1, -2.5], h2=[2, 1.3, -1.2], IR=[0, .3], OR=[1., 2], phih=[.4, PI]),
                      lambda g: g['h1'] < g['h2'] and g['h1']*g['h2'] > 0, lambda L, g: F.ring(L, g['h1'], g['h2'], g['IR'], g['OR'], 0, g['phih'])),
    'outer_cone': (bqn.outer_cone, ('H', 'IR', 'OR', 'phih'), dict(H=[.5, 1, 1.7], IR=[.5, 1, .8], OR=[1.2, 2, 1.5], phih=[.4, PI/2, PI, 2.2]),
                   lambda g: g['IR'] < g['OR'], lambda L, g: F.hollow_cone(L, g['H'], g['IR'], g['OR'], g['phih'])),
    'trapezoid': (bqn.trapezoid, ('h1', 'h2', 'IR', 'OR', 'phih'), dict(h1=[-.3, .2, -1, .5], h2=[.4, 1, 2.1], IR=[.8, 1, 1.1], OR=[1.2, 2, 1.5], phih=[.3, .8, 1.1]),
                  lambda g: g['h1'] < g['h2'] and g['IR'] < g['OR'], lambda L, g: F.trap(L, g['h1'], g['h2'], g['IR'], g['OR'], g['phih'])),
}


def numgeos(d):
    ks = list(d[2])
    return [g for g in (dict(zip(ks, v)) for v in itertools.product(*d[2].values())) if d[3](g)]


def numtasks(table, tier, seed, per):
    t = []
    for name in table:
        gs = numgeos(table[name])
        k = (len(gs)+per-1)//per
        t += [(tier, seed, 'num', name, j, k) for j in range(k)]
        t += [(tier, seed, 'numL', name, L, 0) for L in ((0, 1, 2, 3, 4) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 8))]
        t += [(tier, seed, 'numlin', name, 0, 0)]
        t += [(tier, seed, 'numfast', name, L, j) for L in (4, 6, 10) for j in range(2 if L < 10 else 1)]
        t += [(tier, seed, 'numnear', name, j, 3) for j in range(3)]
        t += [(tier, seed, 'numscale', name, 0, 0)]
        t += [(tier, seed, 'numval', name, j, 4) for j in range(4)]
    return t


def tasks(tier, seed):
    t = [(tier, seed, 'sphere', None, L, 0) for L in (0, 1, 2, 5, 9, 16, 25)]
    t += [(tier, seed, 'numbers', None, k, 0) for k in range(8)]
    t += [(tier, seed, 'annulus', None, k, 0) for k in range(8)]
    t += [(tier, seed, 'annulus', 'near', k, 0) for k in range(8)]
    t += numtasks(NUM, tier, seed, 8)
    if tier == 'thorough':
        t += [(tier, seed, 'annulus', 'fine', k, 0) for k in range(8)]
    return sorted(t, key=lambda x: -x[4] if x[2] in ('numL', 'numfast') else 0)


def scale_outer(L, X, W):
    r = np.sqrt((X**2).sum(1))
    ls = np.arange(L+1)
    return np.array([np.sqrt((2*l+1)/(4*PI))*(np.abs(W)/r**(l+1)).sum() for l in ls])[:, None]


def scale_inner(L, X, W):
    r = np.sqrt((X**2).sum(1))
    return np.array([np.sqrt((2*l+1)/(4*PI))*(np.abs(W)*r**l).sum() for l in range(L+1)])[:, None]


SLOW = ('steinmetz', 'platehole')


def numnear(name, table, tier):
    """geometries next to special ones: nearly symmetric, nearly closed, thin"""
    gs = numgeos(table[name])
    ok = table[name][3]
    es = (0, 1e-2, -1e-2, -1e-4, 1e-6) if tier == 'quick' else (0, 1e-2, -1e-2, 1e-3, -1e-4, 1e-4, 1e-6, -1e-6)
    seen = set()
    for g in gs[len(gs)//3::max(1, len(gs)//2)][:1 if tier == 'quick' or name in SLOW else 3]:
        for e in es:
            v = []
            if 'h1' in g:
                v += [dict(h1=-abs(g['h2'])*(1+e)), dict(h1=e*.1), dict(h2=e*.1, h1=-.6)]
            if 'OR' in g:
                v += [dict(IR=g['OR']*(.5+e)), dict(OR=g['IR']*2*(1+e))]
            if 'H' in g:
                v += [dict(H=g['OR']*(1+e)), dict(H=(g['OR']-g['IR'])*(1+e))]
            if 'phih' in g:
                v += [dict(phih=a+e) for a in (PI/4, PI/2, PI) if a+e <= PI and (name not in ('trapezoid', 'trap_mom') or a == PI/4)]
            if 't' in g:
                v += [dict(t=g['r']*(1+e)), dict(theta=e), dict(theta=PI/4+e)]
            if 'R' in g:
                v += [dict(R=g['r']*(1+abs(e))), dict(R=2*g['r']*(1+e))]
            for d in v:
                h = dict(g, **d)
                k = tuple(h.values())
                if k in seen or not ok(h) or h.get('h1', 0) >= h.get('h2', 1):
                    continue
                seen.add(k)
                yield h


def numvals(name, table):
    """one parameter at a time through a row of values: familiar angles, ratios to the other lengths, kinds of numbers"""
    gs = numgeos(table[name])
    ok = table[name][3]
    base = gs[len(gs)//2]
    outer = table is NUM
    out = []
    for k in base:
        if k == 'phih':
            v = [.05, PI/6, PI/4, PI/3, 1, .9, np.float64(.7)]+([] if name.startswith('trap') else [2*PI/3, 3*PI/4, 3, 5*PI/6, 2, 3.])
        elif k == 'theta':
            v = [s*x for x in (.05, PI/6, PI/4, PI/3, 1, np.float64(.7)) for s in (1, -1)]
        else:
            v = [f*x for n, x in base.items() if n not in ('phih', 'theta', k) for f in (1, -1, 2, .5, .9)]
            v += [.25, 1, 2, 3., .1, np.float64(.6), np.int64(2), np.int64(1), -.7, -2, 0]
        for x in v:
            g = dict(base, **{k: x})
            if any(g[n] <= 0 for n in g if n not in ('h1', 'h2', 'theta', 'IR')) or g.get('IR', 1) < 0 or not ok(g) or g.get('h1', 0) >= g.get('h2', 1):
                continue
            # the stand-in rule has to resolve the kernel of outer moments
            if outer and (g['IR'] < .4 or g['OR'] > 4*g['IR'] or max(abs(g.get(n, 0)) for n in ('H', 'h1', 'h2')) > 3*g['IR']):
                continue
            if g not in out:
                out.append(g)
    return out


class Stand:
    """Stand-in for scipy.integrate.tplquad: a fixed product rule with the same contract, so that degrees the adaptive integrator cannot
    reach in the time available are explored too. Endpoint square-root behaviour is removed by t -> sin(pi t/2)."""

    def __init__(self, nx, ny, nz, sub):
        self.x, self.y = [self.rule(n, sub) for n in (nx, ny)]
        self.z = self.rule(nz, False)
        self.calls = 0

    @staticmethod
    def rule(n, sub):
        t, w = np.polynomial.legendre.leggauss(n)
        return (np.sin(PI*t/2), w*PI/2*np.cos(PI*t/2)) if sub else (t, w)

    def __call__(self, func, a, b, gfun, hfun, qfun, rfun, args=(), epsabs=1.49e-8, epsrel=1.49e-8):
        self.calls += 1
        tot = 0.
        for x, wx in zip((a+b)/2+(b-a)/2*self.x[0], self.x[1]*(b-a)/2):
            g, h = [f(x) if callable(f) else f for f in (gfun, hfun)]
            for y, wy in zip((g+h)/2+(h-g)/2*self.y[0], self.y[1]*(h-g)/2):
                q, r = [f(x, y) if callable(f) else f for f in (qfun, rfun)]
                cuts = [(q, 0.), (0., r)] if q < 0 < r else [(q, r)]
                zs = np.concatenate([(q+r)/2+(r-q)/2*self.z[0] for q, r in cuts])
                W = np.concatenate([(r-q)/2*self.z[1] for q, r in cuts])
                try:
                    v = np.asarray(func(zs, y, x, *args), float)
                    if v.shape != zs.shape:
                        raise ValueError
                except (ValueError, TypeError):
                    v = np.array([func(z, y, x, *args) for z in zs], float)
                tot += wx*wy*(W @ v)
        return float(tot), 1e-12


def fast(fn, nodes, L, dens, args):
    """fn under the stand-in integrator; None when the implementation does not go through it"""
    import scipy.integrate as intg
    keep = intg.tplquad
    st = Stand(*nodes)
    intg.tplquad = st
    try:
        fn(0, dens, *args)
        if st.calls != 1:
            return None
        return fn(L, dens, *args)
    finally:
        intg.tplquad = keep


def run_num(rec, table, task, ref, scale):
    tier, seed, mode, name, a, b = task
    fn, order, alph, ok, body = table[name]
    gs = numgeos(table[name])
    if mode == 'num':
        for i, g in list(enumerate(gs))[a::b]:
            # quick: every second geometry, alternating the degree
            if tier == 'quick' and len(gs) > 40 and i % 2:
                continue
            L = (2, 1, 1)[i % 3] if tier == 'quick' else 3
            X, W = body(L+2, g)
            w, s = ref(L, (X, W)), scale(L, X, W)
            case = (name, L, g)
            r = rec.call(fn, L, 1.7, *[g[k] for k in order], _case=case, _what=name) if order[0] != 'dens' else None
            rec.state(case)
            rec.trace()
            rec.trans()
            rec.sample(moments=case)
            rec.close(r, 1.7*w, f'{name}: numerical moments', case, 1.7*s*(3e-5 if name in SLOW else 1e-7)+0*w.real, 1.0)
    elif mode == 'numL':
        L = a
        n = (2 if name in ('steinmetz', 'platehole') else 3) if tier == 'quick' else 6
        for g in gs[3 % len(gs)::max(1, len(gs)//n)][:n if L < 4 else 1]:
            X, W = body(L+2, g)
            w, s = ref(L, (X, W)), scale(L, X, W)
            case = (name, L, g)
            r = rec.call(fn, L, .7, *[g[k] for k in order], _case=case, _what=name)
            rec.state(case)
            rec.trace()
            rec.trans()
            rec.close(r, .7*w, f'{name}: numerical moments', case, .7*s*(3e-5 if name in SLOW else 1e-7)+0*w.real, 1.0)
    elif mode in ('numnear', 'numscale'):
        if mode == 'numnear':
            hs = [(1 if name in SLOW else 1+(i % 2), h) for i, h in enumerate(numnear(name, table, tier)) if i % b == a]
        else:
            # millimetres to kilometres
            n = 1 if name in SLOW else 3
            hs = [(1 if name in SLOW and tier == 'quick' else 2, {k: v if k in ('phih', 'theta') else v*sc for k, v in g.items()})
                  for g in gs[::max(1, len(gs)//n)][:n] for sc in (1e-3, 1e-2, 30., 1e3)]
        for L, h in hs:
            X, W = body(L+2, h)
            w, s = ref(L, (X, W)), scale(L, X, W)
            case = (name, L, h)
            r = rec.call(fn, L, 1., *[h[k] for k in order], _case=case, _what=name)
            rec.state(case)
            rec.trace()
            rec.trans()
            rec.close(r, w, f'{name}: numerical moments', case, s*(3e-4 if name in SLOW else 1e-7)+0*w.real, 1.0)
    elif mode == 'numfast':
        L = a
        n = ({4: 4, 6: 2, 10: 1} if name in SLOW else {4: 8, 6: 4, 10: 2})[L]*(1 if tier == 'quick' else 3)
        nodes = (30, 30, 3+L//2, True) if name in SLOW else (12+L, 11+L//2 if table is NUM else 5+L//2, 14+L if table is NUM else 3+L//2, False)
        if tier != 'quick':
            nodes = tuple(k+10 for k in nodes[:3])+nodes[3:]
        if name == 'annulus above':
            # nearer the origin for its size
            nodes, n = (30+L, 30+L//2, 30+L, False) if tier != 'quick' else (20+L, 20+L//2, 20+L, False), n//2
        for g in gs[::max(1, len(gs)//max(n, 1))][b % 2::2] if L < 10 else gs[len(gs)//3:][:(n+1)//2]:
            X, W = body(L+2, g)
            w, s = ref(L, (X, W)), scale(L, X, W)
            case = (name, L, g, 'stand-in integrator')
            r = rec.call(fast, fn, nodes, L, .7, [g[k] for k in order], _case=case, _what=name)
            if r is None:
                continue
            rec.state(case)
            rec.trace()
            rec.trans()
            rec.close(r, .7*w, f'{name}: numerical moments', case, .7*s*(3e-5 if name in SLOW else 1e-7)+0*w.real, 1.0)
    elif mode == 'numval':
        if name == 'annulus above':
            return
        slow = name in SLOW
        vals = numvals(name, table)
        mid = gs[len(gs)//2]
        jobs = [((3, 2, 1, 2)[i % 4] if not slow else 2, .7, g) for i, g in enumerate(vals)]
        jobs += [(L, d, mid) for L in (range(9) if not slow else range(6)) for d in (1e-9, 1e-4, 50., 1e9, np.float64(.8), np.int64(2), 1)[L % 4::4 if L < 5 else 7]]
        for L, d, g in jobs[a::b]:
            nodes = (30, 30, 3+L//2, True) if slow else (14+L, 14+L//2, 20+L, False) if table is NUM else (16+L, 6+L, 6+L, False)
            X, W = body(L+2, g)
            w, s = ref(L, (X, W)), scale(L, X, W)
            case = (name, L, d, g, 'stand-in integrator')
            r = rec.call(fast, fn, nodes, L, d, [g[k] for k in order], _case=case, _what=name)
            if r is None:
                continue
            rec.state(case)
            rec.trace()
            rec.trans()
            rec.close(r, d*w, f'{name}: numerical moments', case, d*s*(3e-5 if slow else 1e-6)+0*w.real, 1.0)
    elif mode == 'numlin':
        # densities, repeated calls and interleaved degrees
        g = gs[len(gs)//2]
        first = {}
        for sweep in (0, 1):
            for L in (0, 1):
                for d in ((1.0, -2.5, 3, 0.0, 2700.) if name not in ('steinmetz', 'platehole') else (1.0, 2700)):
                    case = (name, L, d, g)
                    X, W = body(L+2, g)
                    w, s = ref(L, (X, W)), scale(L, X, W)
                    r = rec.call(fn, L, d, *[g[k] for k in order], _case=case, _what=name)
                    rec.trace()
                    rec.trans()
                    if not sweep:
                        rec.state(case)
                    rec.close(r, d*w, f'{name}: numerical moments', case, abs(d)*s*(3e-5 if name in SLOW else 1e-7)+0*w.real, 1.0)
                    if isinstance(r, np.ndarray) and r.flags.writeable:
                        r.fill(1e4)


def numbers(rec, k):
    """closed forms: every degree, amounts, ratios and kinds of numbers"""
    if k == 0:
        for L in range(33):
            for pos in [(.3, .4, -.5), (-1, 2, 2), (0, 0, 1), (1, 0, 0), (np.float64(.3), np.float64(-.4), np.float64(.5)), (np.int64(1), np.int64(-1), np.int64(2)),
                        (1., 1., 1.), (.5, .5, -.2), (-.5, .5, 0), (.5, .25, 1.), (2000., -300., 5000.)]:
                for dens, R in [(1., .5), (2, 1), (np.float64(1.3), np.float64(.25)), (np.int64(2), np.int64(1)), (-1e-4, 12.), (1e9, 1e-3), (50., 2e-7), (1., .3)]:
                    case = ('sphere', L, dens, R, pos)
                    q = rec.call(bq.sphere, L, dens, R, *pos, _case=case, _what='sphere')
                    rec.state(case)
                    rec.trace()
                    rec.trans()
                    d = np.linalg.norm(np.asarray(pos, float))
                    f = d**(np.arange(L+1.)+1)[:, None]/(abs(dens)*R**3)
                    rec.close(q*f, sphere_ref(L, float(dens), float(R), *[float(x) for x in pos])*f, 'sphere: outer moments', case,
                              (4.2*np.sqrt((2*np.arange(L+1)+1)/4/PI))[:, None], 1e-9)
        return
    base = (.7, 1., 1.7, .3, .8)
    geo = [(*base[:3], *a) for a in itertools.product((0, 1e-3, -1e-3, PI/4, PI/2, PI/3, 1, -PI, PI, -2.5, -7, 40., 3, np.float64(.4)), (.05, .5, PI/6, PI/4, PI/3, 1, 2, 2*PI/3, 3*PI/4, 3, 5*PI/6, np.float64(.4)))]
    geo += [(s*H, r0, r1, .3, .8) for r0, r1 in ((.5, 1.), (1, 2), (.7, .8), (1., 3.), (np.float64(.5), np.float64(.9)), (np.int64(1), np.int64(2)), (.6, 1.5))
            for H in (r0, 2*r0, r0/2, r1, 2*r1, r1/2, r1-r0, 1, 2, 3, 4., .3, np.float64(.8), np.int64(1)) for s in (1, -1)]
    geo += [(s*base[0]*f, base[1]*f, base[2]*f, .3, .8) for f in (1e-6, 1e-3, .02, 30., 1e3, 1e6) for s in (1, -1)]
    jobs = [(5, 2.3, g) for g in geo]+[(L, d, base) for L in range(14) for d in (0, 1e-9, 1e-4, 50., 1e9, np.float64(.8), np.int64(2), -1, -.3)]
    for L, d, g in jobs[k-1::7]:
        H, r0, r1, phic, phih = g
        case = ('annulus', L, d, g)
        f = float(r0)
        X, W = F.ring(5, min(0, H/f), max(0, H/f), 1., r1/f, phic, phih, nph=24)
        w, s = o.rule_outer(5, (X, W)), scale_outer(5, X, W)
        q = rec.call(bq.annulus, L, d, *g, _case=case, _what='annulus')
        rec.state(case)
        rec.trace()
        rec.trans()
        n = min(L, 5)
        if rec.check(np.shape(q) == (L+1, 2*L+1), 'shape of the moments', case, np.shape(q)):
            can = 1+1e-5*(r1/abs(H))**4*(r1/(r1-r0))
            sc = f**(2-np.arange(n+1.))[:, None]
            rec.close(q[:n+1]/sc, F.pad(w, L)[:n+1]*d, 'annulus: outer moments', case, abs(d)*s[:n+1]*can+0*q[:n+1].real, 1e-9)


def run(task, rec):
    tier, seed, mode, name, a, b = task
    if mode.startswith('num') and mode != 'numbers':
        run_num(rec, NUM, task, o.rule_outer, scale_outer)
    elif mode == 'sphere':
        L = a

        def r(c):
            return rec.call(bq.sphere, L, c['dens'], c['R'], *c['pos'], _case=(L, str(c)))

        def judge(c, q, case):
            w = sphere_ref(L, c['dens'], c['R'], *c['pos'])
            d = np.linalg.norm(c['pos'])
            m = abs(c['dens'])*4/3*PI*c['R']**3
            s = (m*np.sqrt((2*np.arange(L+1)+1)/4/PI)/d**(np.arange(L+1)+1))[:, None]
            # the polar angle from its cosine
            tilt = np.hypot(*c['pos'][:2])/d
            rec.close(q, w, 'sphere: outer moments', [L, case], s+0*w.real, 1e-9*(1 if tilt == 0 else max(1, 1e-4/tilt)))
        explore(rec, f'sphere L={L}', dict(dens=[1.0, 2700, -3.3, 1e-9], R=[.5, 1, 2.2, .01, 1e-5], pos=POS), r, judge, order=seed)
    elif mode == 'numbers':
        numbers(rec, a)
    elif mode == 'annulus':
        hs = [1.0, -.7, .3, 2, -3] if not name else [.05, .5, 5., -1., -.1, 1.5]
        r0s = [.5, 1.0, 1.9] if not name else [.3, .8, 1.5, 3.]
        r1s = [2.0, 1.2, 3] if not name else [1., 2.5, 3.5]
        geo = [(H, r0, r1) for H in hs for r0 in r0s for r1 in r1s if r0 < r1]
        phihs = (.3, PI/2, 2, PI)
        if name == 'near':
            eps = [0.]+[s*e for e in (1e-2, 1e-4, 1e-7) for s in (1, -1)]
            geo = [(H, r1*(1-e), r1) for H in (1., -.4, .05) for r1 in (1., 1.7) for e in (1e-2, 1e-3, 1e-4)]
            geo += [(sg*r*(1+e), .8, 1.9) for r in (.8, 1.9, .4, np.sqrt(1.9**2-.8**2)) for sg in (1, -1) for e in eps]
            geo += [(H, r0, 2.) for H in (.7, -1.) for r0 in (.1, .2)]+[(H, .7, 1.2) for H in (.02, -.01, 1e-3)]
            phihs = tuple(v+e for v in (PI/3, PI/2, PI) for e in (0, 1e-3, -1e-3, -1e-6) if v+e <= PI)
        cache = {}
        mine = geo[a::8]
        for sweep in (0, 1):
            for H, r0, r1 in (mine if not sweep else mine[::-1]):
                for phic in F.ANGC if name != 'near' else (.7, PI/2+1e-4):
                    for phih in phihs:
                        if (H, r0, r1) not in cache:
                            # the integral over the azimuth separates
                            X, W = F.ring(5, min(0, H), max(0, H), r0, r1, 0, .5, n=14 if abs(H) > .1 else 20, nph=14)
                            cache[H, r0, r1] = o.rule_outer(5, (X, W)), scale_outer(5, X, W)
                        w, s = cache[H, r0, r1]
                        w = w*np.sinc(MS*phih/PI)/np.sinc(MS*.5/PI)*(phih/.5)
                        s = s*(phih/.5)
                        w = w*np.exp(1j*np.arange(-5, 6)*phic)
                        for L in ((5, 0, 1, 2, 3, 4, 6, 9) if not sweep and name != 'near' else (5, 3)):
                            d = 1.0 if sweep else (2.3 if L % 2 else -1)
                            case = ('annulus', L, H, r0, r1, phic, phih)
                            q = rec.call(bq.annulus, L, d, H, r0, r1, phic, phih, _case=case)
                            rec.trace()
                            rec.trans()
                            if not sweep:
                                rec.state(case)
                                rec.sample(annulus=case)
                            k = min(L, 5)
                            if rec.check(np.shape(q) == (L+1, 2*L+1), 'shape of the moments', case, np.shape(q)):
                                # the closed forms divide by powers of H
                                can = 1+1e-5*(r1/abs(H))**4*(r1/(r1-r0))
                                rec.close(q[:k+1], F.pad(w, L)[:k+1]*d, 'annulus: outer moments', case,
                                          abs(d)*s[:k+1]*can+0*q[:k+1].real, 1e-9)
                            q.fill(3e3)
