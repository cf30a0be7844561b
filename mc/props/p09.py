"""Gravitational torque from multipole moments of a spinning body."""
import itertools
import numpy as np
from mc import oracle as o
from mc.alph import labs, Lab, cloud, layouts
from mc.engine import explore
from mc.props.p07 import hbasis, special
from mc.props.p08 import LARGE
import newt.multipoleLib as mp

PI = np.pi
EUL = [('0', (0., 0, 0)), ('a', (.3, 0, 0)), ('b', (0, .4, 0)), ('c', (0, 0, .5)), ('abc', (.3, .4, .5)), ('pi', (-.3, PI, .5)),
       ('-b', (.2, -.4, .6)), ('90', (PI/2, PI/2, PI/2)), ('2pi', (.1, 2*PI, 0)), ('wide', (1, 4, 2)), ('-90', (0, -PI/2, 0)), ('big', (-9., 11., 25.))]
VEC = [('0', (0., 0, 0)), ('z', (0, 0, 1.)), ('-z', (0, 0, -1.)), ('x', (1., 0, 0)), ('y', (0, 1., 0)), ('-x', (-1., 0, 0)), ('-y', (0, -.8, 0)),
       ('gen', (.5, -.4, .3)), ('-gen', (-.5, .4, -.3)), ('int', (1, 2, 3)), ('near z', (1e-3, 0, 1.)), ('tiny', (1e-4, 2e-4, -1e-4)), ('xz', (3., 0, 4.))]
ANG = np.array([0, .3, 1., 2., -1., 4., PI, 11.])
TYPES = ['inner-inner', 'inner-outer', 'outer-outer']


def embed(q, L):
    K = len(q)-1
    out = np.zeros((L+1, 2*L+1), complex)
    n = min(K, L)
    for l in range(n+1):
        out[l, L-l:L+l+1] = q[l, K-l:K+l+1]
    return out


def bil(q, Q, G):
    L = len(q)-1
    ls, ms = np.arange(L+1), np.arange(-L, L+1)
    return -4j*PI*G*np.outer(1/(2*ls+1), ms)*q*Q


def spin(q, a, s):
    L = len(q)-1
    return q*np.exp(-1j*s*np.arange(-L, L+1)*a)


def reference(q, Q, e, r, tt, ang, G):
    """z torque on the sensor, for each angle by which the moving body has been
    spun about its own z axis before it is oriented and placed"""
    L = min(len(q), len(Q))-1
    q, Q = embed(q, L), embed(Q, L)
    R = o.euler_zyz(*e)
    out, sc = [], []
    for a in ang:
        if tt == 'inner-inner':
            n = bil(o.translate_inner(o.rotate_inner(spin(q, a, 1), R), r), Q, G)
        elif tt == 'inner-outer':
            n = bil(q, o.translate_in2out(o.rotate_inner(spin(Q, a, 1), R), r), G)
        else:
            n = bil(q, o.translate_outer(o.rotate_outer(spin(Q, a, -1), R), r), G)
        out.append(n.sum().real)
        sc.append(np.abs(n).sum())
    return np.array(out), max(sc)


def tasks(tier, seed):
    t = []
    for tt in TYPES:
        for L in (1, 2) if tier == 'quick' else (1, 2, 3):
            for i in range(len(VEC)):
                if not (tt == 'inner-outer' and VEC[i][0] == '0'):
                    t.append((tier, seed, 'basis', (tt, L, i)))
        for pair in [(0, 0), (3, 3), (1, 3), (4, 2), (5, 5), (0, 2), (7, 6)]+([] if tier == 'quick' else [(9, 9), (12, 12), (16, 15), (6, 1)]):
            t.append((tier, seed, 'dense', (tt, pair)))
    t += [(tier, seed, 'lm', k) for k in range(4)]
    t += [(tier, seed, 'points', tt) for tt in TYPES]
    t += [(tier, seed, 'other', 0)]+[(tier, seed, 'layout', tt) for tt in TYPES]
    t += [(tier, seed, 'high', (tt, p)) for tt in TYPES for p in ((9, 10), (12, 12), (17, 13), (20, 20))]
    t += [(tier, seed, 'numbers', (tt, L)) for tt in TYPES for L in (1, 3)]
    t += [(tier, seed, 'lmhigh', k) for k in range(2)]
    t += [(tier, seed, 'large', (tt, L)) for tt in TYPES for L in (1, 4)]
    t += [(tier, seed, 'special', (tt, w)) for tt in TYPES for w in range(4)]
    t += [(tier, seed, 'scale', (tt, L)) for tt in TYPES for L in ((3,) if tier == 'quick' else (1, 3, 5))]
    t.sort(key=lambda x: -sum(x[3][1]) if x[2] in ('dense', 'high') else -13 if x[2] in ('scale', 'special') else -3)
    return t


def total(rec, nc, ns, tt, ang, case):
    s = rec.call(mp.torques_at_angle, nc, ns, ang, outer=(tt == 'outer-outer'), _case=case)
    # without any angular dependence a single number stands for all angles
    return np.broadcast_to(s, np.shape(ang)) if len(nc) == 1 and np.shape(s) == () else s


def structure(rec, res, L, case):
    if not rec.check(isinstance(res, tuple) and len(res) == 3, 'torque returns three arrays', case):
        return False
    nlm, nc, ns = res
    if not rec.check(np.shape(nlm) == (L+1, 2*L+1) and np.shape(nc) == (L+1,) and np.shape(ns) == (L+1,),
                     'shape of the torque components', case, str([np.shape(x) for x in res])):
        return False
    nm = nlm.sum(0)
    s = np.abs(nlm).sum()+1e-300
    rec.close(nc, nm[L:]+nm[L::-1], 'cosine components', case, s, 1e-10)
    rec.close(ns, nm[L:]-nm[L::-1], 'sine components', case, s, 1e-10)
    return True


def dense(kind, L, k=0):
    c = cloud(6, 1.0, 3+k)
    if kind == 'outer':
        c[:, 1:] *= (2.5/np.linalg.norm(c[:, 1:], axis=1))[:, None]
        return o.outer(L, c)
    c[:, 1:] *= .6
    return o.inner(L, c)


def run(task, rec):
    tier, seed, mode, arg = task
    G = o.BIG_G
    if mode == 'basis':
        tt, L, i = arg
        r = np.array(VEC[i][1], float)
        B = list(hbasis(L))
        if L == 3:
            B = B[::2]
        tol = 1e-9
        for ke, e in EUL:
            # linear maps applied by the model to each basis element
            R = o.euler_zyz(*e)
            tab = np.empty((len(B), len(ANG), L+1, 2*L+1), complex)
            for j, (kb, b) in enumerate(B):
                for n, a in enumerate(ANG):
                    if tt == 'inner-inner':
                        tab[j, n] = o.translate_inner(o.rotate_inner(spin(b, a, 1), R), r)
                    elif tt == 'inner-outer':
                        tab[j, n] = o.translate_in2out(o.rotate_inner(spin(b, a, 1), R), r)
                    else:
                        tab[j, n] = o.translate_outer(o.rotate_outer(spin(b, a, -1), R), r)
            first = {}
            for sweep in (0, 1):
                for j, (kb, b) in enumerate(B):
                    for k, (kc, c) in enumerate(B):
                        case = (tt, L, VEC[i][0], ke, 'moved', kb, 'fixed', kc)
                        q, Q = (b, c) if tt == 'inner-inner' else (c, b)
                        if sweep and (j+k) % 4:
                            continue
                        res = rec.call(mp.torque, q, Q, e, r, tt, _case=case)
                        rec.trace()
                        if not structure(rec, res, L, case):
                            continue
                        sig = total(rec, res[1], res[2], tt, ANG, case)
                        n = np.stack([bil(tab[j, m], c, G) for m in range(len(ANG))])
                        # natural size of the torque of this pair of moments
                        s = np.abs(tab[j]).max()*4*PI*G
                        rec.close(sig, n.sum((1, 2)).real, f'torque {tt}', case, s, tol)
                        if not sweep:
                            rec.state(case)
                            rec.trans(len(ANG))
    elif mode == 'dense':
        tt, (Lq, LQ) = arg
        q = dense('inner', Lq)
        Q = dense('outer' if tt != 'inner-outer' else 'inner', LQ, 5)
        hi = max(Lq, LQ) > 4
        vs = [v for v in VEC if not (tt == 'inner-outer' and (v[0] in ('0', 'tiny') or max(Lq, LQ) > 4 and v[0] == 'tiny'))]
        es = EUL if max(Lq, LQ) <= 5 else EUL[4:8]
        if hi:
            vs = [v for v in vs if v[0] in ('0', 'z', '-z', 'gen', 'xz', '-x')]
        mul = 4.0 if tt == 'inner-outer' else (1.0 if tt == 'inner-inner' else .7)
        L = min(Lq, LQ)

        def r(c):
            case = [arg, str(c)]
            v = c['vec'].v
            rv = np.array(v, float)*mul if c['form'] else [x*mul for x in v]
            res = rec.call(mp.torque, q, Q, c['euler'].v, rv, tt, cnst=c['G'], _case=case) if c['G'] != G else \
                rec.call(mp.torque, q, Q, c['euler'].v, rv, tt, _case=case)
            structure(rec, res, L, case)
            return res[1], res[2]

        cache = {}

        def judge(c, res, case):
            key = (c['euler'].lab, c['vec'].lab)
            ang = ANG if max(Lq, LQ) <= 5 else ANG[1:4]
            if key not in cache:
                cache[key] = reference(q, Q, c['euler'].v, np.array(c['vec'].v, float)*mul, tt, ang, 1.0)
            w, s = cache[key]
            sig = total(rec, res[0], res[1], tt, ang, case)
            tol = 1e-6 if 'near' in c['vec'].lab else 1e-9
            rec.close(sig, w*c['G'], f'torque {tt}', [arg, case], s*abs(c['G']), tol)
        explore(rec, f'dense {arg}', dict(euler=labs(es), vec=labs(vs), G=[G, 1.0], form=[0, 1]), r, judge,
                skip=lambda c: c['G'] != G and c['form'] == 0, order=seed)
    elif mode == 'lm':
        for Lq in range(0, 7):
            for LQ in range(0, 7):
                q, Q = dense('inner', Lq, arg), dense('outer', LQ, 2*arg+1)
                L = min(Lq, LQ)
                for cn in (None, 1.0, -2.0):
                    case = (Lq, LQ, arg, cn)
                    res = rec.call(mp.torque_lm, q, Q, _case=case) if cn is None else rec.call(mp.torque_lm, q, Q, cn, _case=case)
                    rec.state(('lm',)+case)
                    rec.trace()
                    if structure(rec, res, L, case):
                        w = bil(embed(q, L), embed(Q, L), G if cn is None else cn)
                        rec.close(res[0], w, 'torque components', case, np.abs(w).max(), 1e-12)
                        rec.close(np.sum(res[1]), w.sum().real, 'total torque', case, np.abs(w).sum(), 1e-12)
                    # action and reaction under rotations of both bodies about z
                    for a in (.4, 2.):
                        r2 = rec.call(mp.torque_lm, spin(q, a, 1), spin(Q, a, -1), _case=case)
                        r1 = rec.call(mp.torque_lm, q, Q, _case=case)
                        rec.trans()
                        rec.close(r2[0], r1[0], 'invariance under a common rotation', case, np.abs(r1[0]).max()+1e-300, 1e-10)
    elif mode == 'high':
        # high degrees, every degree dominating once
        tt, (Lq, LQ) = arg
        L = min(Lq, LQ)
        okind = 'inner' if tt == 'inner-outer' else 'outer'
        q0, Q0 = dense('inner', Lq), dense(okind, LQ, 5)
        e = (.3, -.8, 2.)
        for n, l in enumerate([None, L, L-1, 0, L//2]):
            if n and tt == 'inner-inner' and l == 0:
                continue
            q, Q = q0.copy(), Q0.copy()
            if l is not None:
                (Q if tt == 'inner-outer' else q)[:l] = 0
                (Q if tt == 'inner-outer' else q)[l+1:] = 0
            for v in ((2., -3., 4.), (0, 0, -5.)) if tt == 'inner-outer' else ((.2, -.3, .1), (0, 0, .3), (0, 0, 0)):
                if n and v[0] == 0 or tier == 'quick' and n > 2 and L > 15:
                    continue
                case = (tt, Lq, LQ, 'only degree', l, v)
                res = rec.call(mp.torque, q, Q, e, np.array(v), tt, _case=case)
                rec.state(case)
                rec.trace()
                if structure(rec, res, L, case):
                    w, s = reference(q, Q, e, np.array(v, float), tt, ANG[1:3], G)
                    rec.close(total(rec, res[1], res[2], tt, ANG[1:3], case), w, f'torque {tt}', case, s+1e-290, 1e-8)
                    rec.trans(2)
    elif mode == 'lmhigh':
        for Lq in (2, 8, 11, 17, 25, 34):
            for LQ in (3, 9, 12, 17, 26, 33):
                q, Q = dense('inner', Lq, arg), dense('outer', LQ, 2*arg+1)
                L = min(Lq, LQ)
                case = ('degrees', Lq, LQ, arg)
                rec.state(case)
                rec.trace()
                res = rec.call(mp.torque_lm, q, Q, _case=case)
                if structure(rec, res, L, case):
                    w = bil(embed(q, L), embed(Q, L), G)
                    rec.close(res[0], w, 'torque components', case, np.abs(w).max(1)[:, None]+1e-290, 1e-12)
    elif mode == 'large':
        # many turns, of the body and of its orientation
        tt, L = arg
        q, Q = dense('inner', L), dense('inner' if tt == 'inner-outer' else 'outer', L, 5)
        v = np.array([2., -3., 4.])*(1 if tt == 'inner-outer' else .1)
        for x in LARGE:
            ang = np.array([x, -1.5*x, .4, x+.3])
            for e in ((.3, .4, .5), (x, .4, -1.1), (.3, x, -1.1), (.3, .4, x), (x, -x, 2*x), (0, x, 0), (-x, 0, 0)):
                case = (tt, L, e, x)
                res = rec.call(mp.torque, q, Q, e, v, tt, _case=case)
                rec.state(case)
                rec.trace()
                if structure(rec, res, L, case):
                    w, s = reference(q, Q, e, v, tt, ang, G)
                    rec.close(total(rec, res[1], res[2], tt, ang, case), w, f'torque {tt}', case, s, 1e-9+2e-14*L*abs(x))
                    rec.trans(4)
    elif mode == 'numbers':
        # every octant, plane and axis of the displacement, familiar fractions
        # of a turn, every strength, every type of number
        tt, L = arg
        q, Q = dense('inner', L), dense('inner' if tt == 'inner-outer' else 'outer', L, 5)
        mul = 4. if tt == 'inner-outer' else 1.

        def one(e, v, g, case, tol=1e-9, w=None):
            res = rec.call(mp.torque, q, Q, e, v, tt, g, _case=case)
            rec.state(case)
            rec.trace()
            if structure(rec, res, L, case):
                w, s = reference(q, Q, [float(x) for x in e], np.array([float(x) for x in v]), tt, ANG[1:4], float(g))
                rec.close(total(rec, res[1], res[2], tt, ANG[1:4], case), w, f'torque {tt}', case, s+1e-290, tol)
                rec.trans(3)
        for mags in ((.5, .9, 1.4), (1., 1., 1.), (.02, .7, 3.), (.8, .8, .3), (1e-5, .4, .5), (1, 2, 3), (3., 4., 0), (1e-6, 1e-7, 3.), (6., 8., 40.)):
            for perm in sorted(set(itertools.permutations(mags))):
                for sg in itertools.product((1, -1), repeat=3):
                    v = tuple(a*b*mul for a, b in zip(perm, sg))
                    tilt = np.hypot(v[0], v[1])/abs(v[2]) if v[2] else 1
                    one((.3, .4, .5) if sum(sg) > 0 else (-1., 2., .2), v, G, ('numbers', tt, L, v), 1e-9 if tilt == 0 or tilt > 5e-4 else 1e-6)
        A = (0, .3, -1.2, PI/4, PI/3, PI/2, PI, -PI/2, 1e-3, 1e-6, 2)
        v = (1.*mul, -.5*mul, .8*mul)
        for e in itertools.product(A, repeat=3):
            if L == 1 or e[0] in (0, .3) or e[1] in (0, PI/2, 1e-3) and e[2] < 1:
                one(e, v, G, ('numbers', tt, L, e), 1e-8 if 1e-6 in e else 1e-9)
        for g in (1e-12, 1e-5, .01, 1, 7.5, 300, 1e5, -2., 0, np.float64(.3), np.array(4.), np.int64(2)):
            for ty in (list, tuple, np.array, lambda x: [np.float64(y) for y in x], lambda x: [np.array(y) for y in x], lambda x: np.repeat(np.array(x), 2)[::2]):
                for e, v in (((.3, .4, .5), (1.*mul, -.5*mul, .8*mul)), ((1, 2, -1), (4, -3, 5)), ((0, 0, 0), (0, 0, 5))):
                    one(ty(e), ty(v), g, ('types', tt, L, repr(g), e, str(ty(e)), type(ty(e)).__name__))
    elif mode == 'layout':
        tt = arg
        L = 3
        q0, Q0 = dense('inner', L), dense('inner' if tt == 'inner-outer' else 'outer', L, 5)
        n0 = bil(q0, Q0, G)
        for v in ((0, 0, 5.), (3., 0, 0), (2., -3., 4.)):
            w, s = reference(q0, Q0, (.3, .4, .5), np.array(v), tt, ANG[1:4], G)
            for la, q in layouts(q0):
                for lb, Q in layouts(Q0):
                    case = (tt, v, la, lb)
                    res = rec.call(mp.torque, q, Q, (.3, .4, .5), np.array(v), tt, _case=case)
                    rec.state(case)
                    rec.trace(2)
                    if structure(rec, res, L, case):
                        rec.close(total(rec, res[1], res[2], tt, ANG[1:4], case), w, f'torque {tt}', case, s, 1e-9)
                    rec.close(rec.call(mp.torque_lm, q, Q, _case=case)[0], n0, 'torque components', case, np.abs(n0).max(), 1e-12)
    elif mode == 'special':
        # moments with symmetries on either side
        tt, part = arg
        L = 3
        okind = 'inner' if tt == 'inner-outer' else 'outer'
        q0, Q0 = dense('inner', L), dense(okind, L, 5)
        es = [(0, 0, 0), (.3, .4, .5), (0, PI/2, 0), (1., PI, 0)]
        vs = [(0, 0, 5.), (0, 0, -5.), (3., 0, 0), (2., -3., 4.)]+([] if tt == 'inner-outer' else [(0, 0, 0)])
        pairs = [(k, q, Q0) for k, q in special(L, False, False)]+[(k, q0, Q) for k, Q in special(L, okind == 'outer', False)]
        pairs += [((k, 'both'), q, Q) for (k, q), (_, Q) in zip(special(L, False, False), special(L, okind == 'outer', False))]
        for n, (k, q, Q) in enumerate(pairs):
            if n % 4 != part:
                continue
            rec.close(rec.call(mp.torque_lm, q, Q, _case=k)[0], bil(q, Q, G), 'torque components', (tt, k), np.abs(bil(q, Q, G)).max()+1e-290, 1e-12)
            for i, e in enumerate(es):
                for j, v in enumerate(vs):
                    if tier == 'quick' and (i+j+n//4) % 4 and not (i == j == 0):
                        continue
                    case = (tt, k, e, v)
                    res = rec.call(mp.torque, q, Q, e, np.array(v), tt, _case=case)
                    rec.state(case)
                    rec.trace()
                    if structure(rec, res, L, case):
                        w, s = reference(q, Q, e, np.array(v, float), tt, ANG[1:4], G)
                        rec.close(total(rec, res[1], res[2], tt, ANG[1:4], case), w, f'torque {tt}', case, s+4*PI*G*np.abs(q).max()*np.abs(Q).max()*1e-3+1e-290, 1e-9)
                        rec.trans(3)
    elif mode == 'scale':
        # bodies, distances and displacements from micrometres to kilometres
        tt, L = arg
        sizes = [1e-6, 1e-3, 1., 30., 1e3]
        ls = np.arange(L+1)[:, None]
        e = (.3, .4, .5)
        u = np.array([.5, -.4, .76])
        for a in sizes:
            for b in sizes:
                for dd in sizes:
                    for mass in (1., 1e-15, 1e12):
                        if mass != 1 and not (a == 1. and b in (1e-3, 1e3)):
                            continue
                        q = dense('inner', L)*a**(1.*ls)
                        Q = mass*(dense('inner', L, 5)*b**(1.*ls) if tt == 'inner-outer' else dense('outer', L, 5)*b**(-ls-1.))
                        case = (tt, L, 'size', a, 'source', b, 'displacement', dd, 'mass', mass)
                        res = rec.call(mp.torque, q, Q, e, u*dd, tt, _case=case)
                        rec.state(case)
                        rec.trace()
                        if structure(rec, res, L, case):
                            w, s = reference(q, Q, e, u*dd, tt, ANG[1:4], G)
                            rec.close(total(rec, res[1], res[2], tt, ANG[1:4], case), w, f'torque {tt}', case, s, 1e-9)
                            rec.trans(3)
    elif mode == 'points':
        # the multipole torque against the direct sum over masses, with the
        # truncation error bounded by the geometric series
        tt = arg
        L = 14
        m0 = cloud(4, .3, 2)
        if tt == 'inner-outer':
            m1, v = cloud(5, .3, 7), np.array([2.5, -1., 3.])
        else:
            m1 = cloud(5, 1., 7)
            m1[:, 1:] *= (4/np.linalg.norm(m1[:, 1:], axis=1))[:, None]
            v = np.array([.3, .2, -.4])
        q = o.inner(L, m0)
        Q = o.inner(L, m1) if tt == 'inner-outer' else o.outer(L, m1)
        for ke, e in EUL:
            R = o.euler_zyz(*e)
            res = rec.call(mp.torque, q, Q, e, v, tt, _case=ke)
            sig = total(rec, res[1], res[2], tt, ANG, ke)
            rec.state(('points', tt, ke))
            rec.trace()
            for a, s in zip(ANG, sig):
                A, B = m0.copy(), m1.copy()
                mv = A if tt == 'inner-inner' else B
                mv[:, 1:] = mv[:, 1:] @ (R @ o.Rz(a)).T+v
                F, T = o.pair_force(A, B)
                ra = np.linalg.norm(A[:, 1:], axis=1).max()
                rb = np.linalg.norm(B[:, 1:], axis=1).min()
                big = G*np.abs(A[:, 0]).sum()*np.abs(B[:, 0]).sum()/rb
                rec.close(s, T[2], 'torque against the sum over masses', (tt, ke, a), big*(.42)**L*400, 1.0)
                rec.trans()
    elif mode == 'other':
        q, Q = dense('inner', 2), dense('outer', 2)
        for bad in ('outer-inner', '', 'inner', None, 'Inner-Inner'):
            rec.state(('type', bad))
            try:
                mp.torque(q, Q, (0, 0, 0), (0, 0, 1.), bad)
                rec.fail('unknown kind of translation accepted', bad)
            except ValueError:
                rec.trans()
        # one array in the place of both bodies, and windows into one array
        for L in (1, 2, 4):
            q = dense('inner', L)
            keep = q.copy()
            for e in ((0, 0, 0), (.3, .4, .5), (0, PI, 0)):
                for tt in TYPES:
                    for v in ((0, 0, 5.), (2., -3., 4.), (0, 0, 0)):
                        if tt == 'inner-outer' and not any(v):
                            continue
                        case = ('one array', L, e, tt, v)
                        w, s = reference(q, q, e, np.array(v, float), tt, ANG, G)
                        for Q in (q, q[:], q.view()):
                            res = rec.call(mp.torque, q, Q, e, np.array(v, float), tt, _case=case)
                            rec.state(case)
                            rec.trans()
                            if structure(rec, res, L, case):
                                rec.close(total(rec, res[1], res[2], tt, ANG, case), w, 'torque, one array for both bodies', case, s+1e-290, 1e-9)
                            rec.check(np.array_equal(q, keep), 'moments modified', case)
            res = rec.call(mp.torque_lm, q, q, _case=L)
            n = bil(q, q, G)
            rec.close(res[0], n, 'torque components, one array for both bodies', L, np.abs(n).max(), 1e-12)
            # three numbers for the orientation and the displacement as one and the same object
            x = np.array([.3, .4, .5])
            for tt in TYPES:
                Q = dense('inner' if tt == 'inner-outer' else 'outer', L, 5)
                case = ('same angles and displacement', L, tt)
                w, s = reference(q, Q, x, x, tt, ANG, G)
                res = rec.call(mp.torque, q, Q, x, x, tt, _case=case)
                rec.close(total(rec, res[1], res[2], tt, ANG, case), w, 'torque, one array for angles and displacement', case, s, 1e-9)
        # same arguments, refilled in place; different translation types interleaved
        a, b = np.zeros((3, 5), complex), np.zeros((3, 5), complex)
        for k in range(30):
            tt = TYPES[k % 3]
            a[:] = dense('inner', 2, k)
            b[:] = dense('inner' if tt == 'inner-outer' else 'outer', 2, 2*k)
            e, v = EUL[k % len(EUL)][1], np.array(VEC[1+k % (len(VEC)-1)][1], float)
            if tt == 'inner-outer':
                v = v/np.linalg.norm(v)*5
            res = rec.call(mp.torque, a, b, e, v, tt, _case=('interleaved', k))
            sig = total(rec, res[1], res[2], tt, ANG, k)
            w, s = reference(a, b, e, v, tt, ANG, G)
            rec.close(sig, w, 'torque, arrays refilled in place', ('interleaved', k, tt), s, 1e-7)
            rec.state(('interleaved', k))
            rec.trans()
