"""Force of outer moments on a displaced body given by its inner moments."""
import itertools
import numpy as np
from mc import oracle as o
from mc.alph import labs, cloud, layouts
from mc.engine import explore
from mc.props.p07 import hbasis, special
from mc.props.p09 import dense
import newt.multipoleLib as mp

PI = np.pi
VEC = [('0', (0., 0, 0)), ('z', (0, 0, 1.)), ('-z', (0, 0, -1.)), ('x', (1., 0, 0)), ('y', (0, 1., 0)), ('-x', (-1., 0, 0)), ('-y', (0, -.8, 0)),
       ('gen', (.5, -.4, .3)), ('-gen', (-.5, .4, -.3)), ('int', (1, 2, 3)), ('near z', (1e-3, 0, 1.)), ('tiny', (1e-7, 2e-7, -1e-7)), ('xz', (3., 0, 4.)),
       ('xy', (.3, .4, 0)), ('yz', (0, .3, -.2)), ('perm', (-.4, .3, .5))]


def grad(q, d):
    """derivatives along x, y, z of the inner moments displaced by d; also the
    sum of the magnitudes of the terms"""
    L = len(q)-1
    A = o.translate_inner(q, d)
    B = o.inner(1, [1., 1, 0, 0]), o.inner(1, [1., 0, 1, 0]), o.inner(1, [1., 0, 0, 1])
    nR, v = o._norms(L)[0], o._valid(L)
    U = np.zeros_like(A)
    U[v] = A[v]/nR[v]
    out = []
    for k in range(3):
        T = np.zeros(3, complex)
        T[:] = B[k][1]/o._norms(1)[0][1]
        G = np.zeros_like(A)
        for l in range(1, L+1):
            for m in range(-l, l+1):
                s = 0
                for mu in (-1, 0, 1):
                    if abs(m-mu) <= l-1:
                        s += T[1+mu]*U[l-1, L+m-mu]
                G[l, L+m] = s*nR[l, L+m]
        out.append(G)
    return out


def reference(q, Q, d, G=1.0):
    L = len(q)-1
    fac = 4*PI*G/(2*np.arange(L+1)+1)[:, None]
    D = grad(q, d)
    return np.array([(fac*g*Q).sum() for g in D]), max(np.abs(fac*g*Q).sum() for g in D)


def tasks(tier, seed):
    t = [(tier, seed, 'basis', (L, i)) for L in ((1, 2) if tier == 'quick' else (1, 2, 3)) for i in range(len(VEC))]
    t += [(tier, seed, 'dense', (L, k)) for L in (range(0, 7) if tier == 'quick' else range(0, 10)) for k in range(3 if L < 7 else 1)]
    t += [(tier, seed, 'points', k) for k in range(2)]
    t += [(tier, seed, 'seq', 0), (tier, seed, 'layout', 0)]
    t += [(tier, seed, 'numbers', L) for L in (1, 2, 4, 7, 9, 10, 12)]
    t += [(tier, seed, 'high', L) for L in (8, 11, 14, 17)]
    t += [(tier, seed, 'special', k) for k in range(4)]
    t += [(tier, seed, 'scale', L) for L in ((2, 6) if tier == 'quick' else range(1, 9))]
    return sorted(t, key=lambda x: -x[3][0] if x[2] == 'dense' else -30 if x[2] == 'high' else -9 if x[2] == 'scale' else 0)


def run(task, rec):
    tier, seed, mode, arg = task
    G = o.BIG_G
    if mode == 'basis':
        L, i = arg
        v = VEC[i][1]
        B = list(hbasis(L))
        if L == 3:
            B = B[::2]
        fac = 4*PI*G/(2*np.arange(L+1)+1)[:, None]
        for kb, q in B:
            D = grad(q, v)
            s = sum(np.abs(d*fac).sum() for d in D)
            for kc, Q in B:
                case = (L, VEC[i][0], 'inner', kb, 'outer', kc)
                w = np.array([(fac*d*Q).sum() for d in D])
                f = rec.call(mp.multipole_force, L, q, Q, *v, _case=case)
                rec.state(case)
                rec.trace()
                rec.trans()
                rec.sample(force=case)
                rec.close(f, w, 'force from moments', case, s+1e-30, 1e-10)
                fm = rec.call(mp.multipole_force_m, L, q, Q, *v, _case=case)
                if rec.check(np.shape(fm) == (3, 2*L+1), 'shape of the resolved force', case, np.shape(fm)):
                    rec.close(np.sum(fm, 1), w, 'force resolved by order', case, s+1e-30, 1e-10)
    elif mode == 'dense':
        L, k = arg
        q, Q = dense('inner', L, 4*k), dense('outer', L, 3*k+1)
        cache = {}

        def r(c):
            v = c['vec'].v
            if c['form']:
                v = np.array(v, float)
            if c['fn'] == 'total':
                f = rec.call(mp.multipole_force, L, q, Q, *v, cnst=c['G'], _case=str(c)) if c['G'] != G else \
                    rec.call(mp.multipole_force, L, q, Q, *v, _case=str(c))
            else:
                f = rec.call(mp.multipole_force_m, L, q, Q, *v, cnst=c['G'], _case=str(c)) if c['G'] != G else \
                    rec.call(mp.multipole_force_m, L, q, Q, *v, _case=str(c))
            return f

        def judge(c, f, case):
            if c['vec'].lab not in cache:
                cache[c['vec'].lab] = reference(q, Q, c['vec'].v)
            w, s = cache[c['vec'].lab]
            f = f if c['fn'] == 'total' else f.sum(1)
            rec.close(f, w*c['G'], f"force from moments ({c['fn']})", [arg, case], (s+1e-30)*abs(c['G']), 1e-10)
        explore(rec, f'dense {arg}', dict(vec=labs(VEC), fn=['total', 'by order'], G=[G, 1.0, -2.], form=[0, 1]), r, judge,
                skip=lambda c: (c['G'] == -2. and c['form']) or (L > 4 and (c['form'] or c['G'] == 1.)), order=seed)
    elif mode == 'high':
        # high degrees, every degree dominating once
        L = arg
        q0, Q0 = dense('inner', L, 4), dense('outer', L, 7)
        for n, l in enumerate([None, L-1, 0, L//2]):
            q = q0.copy()
            if l is not None:
                q[:l] = 0
                q[l+1:] = 0
            for v in ((.5, -.4, .3), (0, 0, -.6), (0, 0, 0)):
                case = ('high', L, l, v)
                w, s = reference(q, Q0, v, G)
                rec.state(case)
                rec.trace(2)
                rec.trans()
                rec.close(rec.call(mp.multipole_force, L, q, Q0, *v, _case=case), w, 'force from moments', case, s+1e-290, 1e-9)
                if L < 15 or n < 1:
                    rec.close(np.sum(rec.call(mp.multipole_force_m, L, q, Q0, *v, _case=case), 1), w, 'force resolved by order', case, s+1e-290, 1e-9)
    elif mode == 'numbers':
        # components in every ratio and order, every strength, every type of number
        L = arg
        q0, Q0 = dense('inner', L, 4), dense('outer', L, 7)
        vs = []
        for mags in ((.4, .4, .4), (.4, .4001, .2), (.5, 5e-4, .3), (2e-4, .3, 1e-5), (.2, .4, .1), (.3, .3, 0), (30., .1, 1.), (.25, .5, 1.), (1e-9, .2, .2)):
            for perm in sorted(set(itertools.permutations(mags))):
                for sg in itertools.product((1, -1), repeat=3) if L == 2 else ((1, 1, 1), (-1, 1, -1)):
                    vs.append(tuple(a*b for a, b in zip(perm, sg)))
        vs = list(dict.fromkeys(vs))[::1 if L < 7 else 9]
        for v in vs:
            case = ('numbers', L, v)
            w, s = reference(q0, Q0, v, G)
            rec.state(case)
            rec.trace()
            rec.close(rec.call(mp.multipole_force, L, q0, Q0, *v, _case=case), w, 'force from moments', case, s, 1e-10)
            if L < 5:
                rec.close(np.sum(rec.call(mp.multipole_force_m, L, q0, Q0, *v, _case=case), 1), w, 'force resolved by order', case, s, 1e-10)
        w, s = reference(q0, Q0, (.5, -.4, .3), 1.0)
        wi, si = reference(q0, Q0, (1, -2, 1), 1.0)
        for g in (1e-12, 1e-5, .01, 1, 7.5, 300, 1e5, -1e-3, 0, np.float64(.3), np.array(4.), np.int64(2)):
            for ty in (float, np.float64, np.array, np.int64):
                for lt in (int, np.int64, np.int32):
                    v, w1, s1 = ((.5, -.4, .3), w, s) if ty is not np.int64 else ((1, -2, 1), wi, si)
                    if L > 4 and (ty is not float or lt is not int) and g != 7.5:
                        continue
                    case = ('strength', L, repr(g), ty.__name__, lt.__name__)
                    v = [ty(x) for x in v]
                    rec.state(case)
                    rec.trans()
                    rec.close(rec.call(mp.multipole_force, lt(L), q0, Q0, *v, g, _case=case), w1*float(g), 'force from moments', case, s1*abs(float(g))+1e-290, 1e-10)
                    if L < 5:
                        rec.close(np.sum(rec.call(mp.multipole_force_m, lt(L), q0, Q0, *v, cnst=g, _case=case), 1), w1*float(g), 'force resolved by order', case, s1*abs(float(g))+1e-290, 1e-10)
    elif mode == 'layout':
        L = 3
        q0, Q0 = dense('inner', L, 4), dense('outer', L, 7)
        for v in ((.5, -.4, .3), (0, 0, -.6), (0, 0, 0), (1, 2, 3)):
            w, s = reference(q0, Q0, v, G)
            for la, q in layouts(q0):
                for lb, Q in layouts(Q0):
                    case = (v, la, lb)
                    rec.state(case)
                    rec.trace(2)
                    rec.close(rec.call(mp.multipole_force, L, q, Q, *v, _case=case), w, 'force from moments', case, s, 1e-10)
                    rec.close(np.sum(rec.call(mp.multipole_force_m, L, q, Q, *v, _case=case), 1), w, 'force resolved by order', case, s, 1e-10)
    elif mode == 'special':
        # moments with symmetries on either side
        L = 4
        q0, Q0 = dense('inner', L, 4), dense('outer', L, 7)
        pairs = [(k, q, Q0) for k, q in special(L, False, False)]+[(k, q0, Q) for k, Q in special(L, True, False)]
        pairs += [((k, 'both'), q, Q) for (k, q), (_, Q) in zip(special(L, False, False), special(L, True, False))]
        vs = [(0, 0, 0), (0, 0, .5), (0, 0, -.5), (.4, 0, 0), (0, -.6, 0), (.3, .4, 0), (.5, -.4, .3), (0, .3, -.7)]
        for n, (k, q, Q) in enumerate(pairs):
            if n % 4 != arg:
                continue
            for i, v in enumerate(vs):
                if tier == 'quick' and i and (i+n//4) % 3:
                    continue
                case = (k, v)
                w, s = reference(q, Q, v, G)
                rec.state(case)
                rec.trace(2)
                rec.trans()
                rec.close(rec.call(mp.multipole_force, L, q, Q, *v, _case=case), w, 'force from moments', case, s+1e-290, 1e-10)
                rec.close(np.sum(rec.call(mp.multipole_force_m, L, q, Q, *v, _case=case), 1), w, 'force resolved by order', case, s+1e-290, 1e-10)
    elif mode == 'scale':
        # bodies, distances and displacements from micrometres to kilometres
        L = arg
        sizes = [1e-6, 1e-3, .1, 1., 30., 1e3, 1e6]
        ls = np.arange(L+1)[:, None]
        u = np.array([.5, -.4, .76])
        for a in sizes:
            for R in sizes:
                for dd in sizes:
                    for mass in (1., 1e-15, 1e12):
                        if mass != 1 and not a == R/1e3:
                            continue
                        q, Q = dense('inner', L, 4)*a**(1.*ls), mass*dense('outer', L, 7)*R**(-ls-1.)
                        case = ('size', L, a, 'source', R, 'displacement', dd, 'mass', mass)
                        w, s = reference(q, Q, u*dd, G)
                        rec.state(case)
                        rec.trace()
                        rec.trans()
                        rec.close(rec.call(mp.multipole_force, L, q, Q, *(u*dd), _case=case), w, 'force from moments', case, s, 1e-10)
                        f = rec.call(mp.multipole_force_m, L, q, Q, *(u*dd), _case=case)
                        rec.close(np.sum(f, 1), w, 'force resolved by order', case, s, 1e-10)
    elif mode == 'points':
        L = 9
        a, b = cloud(4, .25, 3*arg), cloud(5, 1., 9+arg)
        b[:, 1:] *= (4/np.linalg.norm(b[:, 1:], axis=1))[:, None]
        q, Q = o.inner(L, a), o.outer(L, b)
        for lab, v in VEC:
            if max(np.abs(v)) > 1:
                continue
            m = a.copy()
            m[:, 1:] += v
            F, _ = o.pair_force(m, b)
            f = rec.call(mp.multipole_force, L, q, Q, *v, _case=lab)
            rec.state(('points', arg, lab))
            rec.trace()
            rec.trans()
            ra = np.linalg.norm(m[:, 1:], axis=1).max()
            big = G*np.abs(m[:, 0]).sum()*np.abs(b[:, 0]).sum()/16
            rec.close(f, F, 'force against the sum over masses', (arg, lab), big*(ra/4)**L*10*(L+1)/(1-ra/4)**2+1e-12*big, 1.0)
    elif mode == 'seq':
        for L in range(5):
            q = dense('inner', L, 2)
            for lab, v in VEC[:8]:
                case = ('one array', L, lab)
                w, s = reference(q, q, v, G)
                rec.close(rec.call(mp.multipole_force, L, q, q, *v, _case=case), w, 'force, one array for both bodies', case, s+1e-30, 1e-10)
                rec.close(np.sum(rec.call(mp.multipole_force_m, L, q, q, *v, _case=case), 1), w, 'force, one array for both bodies', case, s+1e-30, 1e-10)
                rec.state(case)
                rec.trans(2)
        # degrees, arguments refilled in place and positions interleaved
        buf = {L: (np.zeros((L+1, 2*L+1), complex), np.zeros((L+1, 2*L+1), complex)) for L in range(5)}
        for k in range(60):
            L = (3*k) % 5
            q, Q = buf[L]
            q[:], Q[:] = dense('inner', L, k), dense('outer', L, 2*k)
            v = VEC[k % len(VEC)][1]
            f = rec.call(mp.multipole_force, L, q, Q, *v, _case=('sequence', k))
            w, s = reference(q, Q, v, G)
            rec.state(('seq', k))
            rec.trace()
            rec.trans()
            rec.close(f, w, 'force, arrays refilled in place', ('sequence', k, L), s+1e-30, 1e-10)
            g = rec.call(mp.multipole_force, L, 3*q, -2*Q, *v, _case=('sequence', k))
            rec.close(g, -6*w, 'force is bilinear', ('sequence', k, L), 6*s+1e-30, 1e-10)
