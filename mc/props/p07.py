"""Translation of multipole moments (Clebsch-Gordan and coaxial recursion)."""
import itertools
import numpy as np
from mc import oracle as o
from mc.alph import labs, Lab, cloud, structured, layouts
from mc.engine import explore, bfs, canon
import newt.translations as trs
import newt.translationRecurs as trr

VECS = [('0', (0., 0, 0)), ('x', (1.5, 0, 0)), ('-x', (-1.5, 0, 0)), ('y', (0, 0.7, 0)), ('-y', (0, -.7, 0)),
        ('z', (0, 0, 2.)), ('-z', (0, 0, -2.)), ('gen', (.3, -1.2, 2.2)), ('down', (.6, .4, -1.7)),
        ('xy', (-1., -1., 0)), ('xz', (1., 0, 1.)), ('int', (1, 2, -3)), ('tiny', (1e-4, -2e-4, 3e-5)),
        ('micro', (1e-7, 2e-7, -1e-7)), ('big', (30., -40., 20.)), ('near z', (1e-3, -1e-3, 1.)), ('near -z', (-1e-3, 0, -1.)),
        ('-0', (-1.2, -0.0, .5)), ('tiny z', (0, 0, 1e-5)), ('big -z', (0, 0, -50.)),
        ('tiny nano', (2e-9, -1e-9, 2e-9)), ('tiny pico -z', (0, 0, -3e-12)), ('tiny -x', (-3e-14, 0, 0))]
FORMS = [Lab('array', np.array), Lab('list', list), Lab('tuple', tuple)]
VD = dict(VECS)
IMPL = {'cg': trs, 'recursive': trr}


def hbasis(L):
    """real-dimensional basis of the moment arrays of real mass densities"""
    for l in range(L+1):
        for m in range(0, l+1):
            for c in ((1,) if m == 0 else (1, 1j)):
                q = np.zeros((L+1, 2*L+1), complex)
                q[l, L+m] = c
                q[l, L-m] = (-1)**m*np.conj(c)
                yield (l, m, c), q


def absscale(kind, q, d):
    """sum of the absolute values of all terms of the series, per (l,m)"""
    L = len(q)-1
    nR, nS = o._norms(L)
    v = o._valid(L)
    A = np.zeros((L+1, 2*L+1))
    n = nS if kind == 'outer' else nR
    A[v] = np.abs(np.asarray(q)[v])/n[v]
    out = np.zeros((L+1, 1))
    T = np.abs(o.R_all(L, [d])[0]).max(1)
    B = A.max(1)
    if kind == 'inner':
        for l in range(L+1):
            out[l] = sum(T[k]*B[l-k]*(2*min(k, l-k)+1) for k in range(l+1))*nR[l].max()
    elif kind == 'outer':
        for l in range(L+1):
            out[l] = sum(T[k]*B[l+k]*(2*k+1) for k in range(L-l+1))*nS[l].max()
    else:
        S = np.abs(o.S_all(2*L, [d])[0]).max(1)
        for l in range(L+1):
            out[l] = sum(S[l+k]*B[k]*(2*k+1) for k in range(L+1))*nS[l].max()
    return out+1e-300


REF = {'inner': o.translate_inner, 'outer': o.translate_outer, 'in2out': o.translate_in2out}
NAME = {'inner': 'translate_qlm', 'outer': 'translate_Qlmb', 'in2out': 'translate_q2Q'}


def judge1(rec, kind, impl, q, d, r, case, tol=1e-9):
    w = REF[kind](q, d)
    rec.close(r, w, f'{impl} {kind} translation', case, absscale(kind, q, d), tol)
    if isinstance(r, np.ndarray):
        rec.check(not np.shares_memory(r, q), f'{impl} {kind} translation: result aliases its argument', case)


def do(rec, kind, impl, q, d, case):
    return rec.call(getattr(IMPL[impl], NAME[kind]), q, d, _case=case, _what=f'{impl} {kind} translation')


def tasks(tier, seed):
    t = []
    for impl in IMPL:
        for kind in REF:
            for L in ([0, 1, 2, 3] if tier == 'quick' else [0, 1, 2, 3, 4, 5]):
                t.append((tier, seed, 'basis', (impl, kind, L)))
            hi = {'cg': [4, 5, 6, 8], 'recursive': [4, 5, 6, 8, 11, 16]}[impl]
            if tier == 'thorough':
                hi = {'cg': [4, 5, 6, 7, 8, 9, 10, 12], 'recursive': list(range(4, 17))+[20, 25]}[impl]
            t += [(tier, seed, 'dense', (impl, kind, L)) for L in hi]
    for impl in IMPL:
        for L in (2, 3):
            for k in range(4):
                t.append((tier, seed, 'hist', (impl, L, k)))
        t.append((tier, seed, 'nearby', impl))
        t += [(tier, seed, 'sparse', (impl, kind, L)) for kind in REF for L in ((14, 17, 22, 31) if impl == 'recursive' else (14, 17) if kind != 'in2out' else (13,))]
        t.append((tier, seed, 'layout', impl))
        t += [(tier, seed, 'scale', (impl, kind)) for kind in REF]
        t += [(tier, seed, 'special', (impl, kind)) for kind in REF]
        t += [(tier, seed, 'octants', (impl, kind)) for kind in REF]
    t += [(tier, seed, 'coax', L) for L in ([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] if tier == 'quick' else list(range(17))+[20])]
    t.sort(key=lambda x: -99999 if x[2] in ('sparse', 'scale', 'special', 'octants') else -(x[3][2]**3*(5 if x[3][0] == 'cg' else 1)) if x[2] in ('dense', 'basis') else 0)
    return t


def dense(kind, L):
    if kind == 'outer':
        c = cloud(6, 1.0, 3)
        c[:, 1:] *= (2/np.linalg.norm(c[:, 1:], axis=1))[:, None]
        return o.outer(L, c)
    return o.inner(L, cloud(6, .8, 3))


def rows(q):
    return np.sqrt((np.abs(q)**2).sum(1))[:, None]+1e-30


def special(L, outer=False, single=True):
    """moments in which a shortcut could see a symmetry"""
    for k, q in hbasis(L):
        yield ('basis',)+k, q
    for k, q in hbasis(L):
        yield ('small basis',)+k, q*1e-14
    if single:
        for l in range(L+1):
            for m in range(-l, l+1):
                for c in (1, 1j):
                    q = np.zeros((L+1, 2*L+1), complex)
                    q[l, L+m] = c
                    yield ('one component', l, m, c), q
    for k, a in structured().items():
        a = a.astype(float)
        q = o.outer(L, a) if outer else o.inner(L, a)
        q[np.abs(q) < 1e-13*rows(q)] = 0
        yield k, q
        if single:
            yield k+' other', np.conj(o.inner(L, a) if outer else o.outer(L, a))
    q = dense('outer' if outer else 'inner', L)
    for l in range(L+1):
        w = q.copy()
        w[l] = 0
        yield ('without degree', l), w
        w = q*0
        w[l] = q[l]
        yield ('only degree', l), w
    for m in range(L+1):
        w = q.copy()
        w[:, L+m] = w[:, L-m] = 0
        yield ('without order', m), w
        w = q.copy()
        w[:, :L-m] = w[:, L+m+1:] = 0
        yield ('orders up to', m), w
    yield 'real', q.real+0j
    yield 'imaginary', (q-np.conj(q))*(np.arange(-L, L+1) != 0)
    for f in (1e-12, 1e-25, 1e15, -1):
        yield ('times', f), q*f
        w = q*1.
        w[L] *= f
        yield ('highest times', f), w
    yield 'nothing', q*0


def run(task, rec):
    tier, seed, mode, arg = task
    if mode == 'basis':
        impl, kind, L = arg
        bs = [Lab(k, q) for k, q in hbasis(L)]
        vecs = [v for v in VECS if not (kind == 'in2out' and v[0] == '0')]
        if L > 2 and tier == 'quick':
            vecs = [v for v in vecs if v[0] in ('0', 'x', '-y', 'z', '-z', 'gen', 'down', 'near z', 'int')]

        def judge(c, r, case):
            judge1(rec, kind, impl, c['q'].v, np.asarray(c['vec'].v, float), r, [arg, case])

        explore(rec, f'basis {arg}', dict(q=bs, vec=labs(vecs)),
                lambda c: do(rec, kind, impl, c['q'].v, np.array(c['vec'].v), [arg, str(c)]), judge, order=seed)
    elif mode == 'dense':
        impl, kind, L = arg
        q = dense(kind, L)
        vecs = [v for v in VECS if not (kind == 'in2out' and v[0] == '0')]
        if kind == 'in2out' and L > 8:
            # distances far below the size of the body overflow there
            vecs = [v for v in vecs if 'tiny' not in v[0] and v[0] != 'micro']
        forms = FORMS
        if impl == 'cg' and L > 4:
            forms = FORMS[:1]
            if L > 5:
                vecs = [v for v in vecs if v[0] in ('-z', 'gen', 'xy')]
        full = {}

        def judge(c, r, case):
            judge1(rec, kind, impl, q, np.asarray(c['vec'].v, float), r, [arg, case])
            # a truncated inner set translates to the truncated result
            if kind == 'inner' and L > 2 and c['form'] is FORMS[0]:
                for K in {0, L//2, L-1}:
                    qk = q[:K+1, L-K:L+K+1].copy()
                    rk = do(rec, kind, impl, qk, np.array(c['vec'].v), [arg, case, K])
                    rec.trans()
                    rec.close(rk, r[:K+1, L-K:L+K+1], f'{impl}: lower degrees of a translation', [arg, case, K],
                              absscale(kind, qk, np.asarray(c['vec'].v, float)), 1e-9)
        explore(rec, f'dense {arg}', dict(vec=labs(vecs), form=forms),
                lambda c: do(rec, kind, impl, q, c['form'].v(c['vec'].v), [arg, str(c)]), judge, order=seed,
                revisit=not (impl == 'cg' and L > 8))
    elif mode == 'sparse':
        # single moments of high degree, so that no term hides behind another
        impl, kind, L = arg
        vs = [(.2, -.3, .45), (-.1, .02, -.1), (.9, 1.4, -2.)]
        ks = [(0, 0), (1, 1), (2, -1), (L//2, 3), (L-1, 1), (L, 0), (L, L)]
        if impl == 'cg' and kind == 'in2out':
            vs, ks = vs[:2] if tier == 'quick' else vs, ks[::3] if tier == 'quick' else ks
        for v in vs:
            for l, m in ks:
                for z in (1, 1e-9):
                    if z != 1 and (l != 1 or impl == 'cg' and kind == 'in2out'):
                        continue
                    q = np.zeros((L+1, 2*L+1), complex)
                    q[l, L+m] = z*(1 if m == 0 else 1+.5j)
                    q[l, L-m] = (-1)**m*np.conj(q[l, L+m])
                    d = np.array(v)
                    case = (*arg, v, l, m, z)
                    rec.state(('sparse',)+case)
                    rec.trace()
                    judge1(rec, kind, impl, q, d, do(rec, kind, impl, q, d, case), case)
    elif mode == 'layout':
        for kind in REF:
            for L in (1, 2, 4):
                q0 = dense(kind, L)
                for lay, q in layouts(q0):
                    for v in ((0, 0, 2.), (0, 0, -2.), (1.5, 0, 0), (.3, -1.2, 2.2)):
                        for vl, d in layouts(np.array([v])):
                            if vl not in ('c', lay):
                                continue
                            d = d[0].real
                            case = (arg, kind, L, lay, vl, v)
                            rec.state(case)
                            rec.trace()
                            rec.close(do(rec, kind, arg, q, d, case), REF[kind](q0, np.array(v)), f'{arg} {kind} translation', case, absscale(kind, q0, np.array(v)), 1e-9)
    elif mode == 'special':
        # moments with symmetries, in every kind of direction
        impl, kind = arg
        L = {'cg': 2, 'recursive': 4}[impl]+(tier == 'thorough')
        dirs = [(0, 0, 2.), (0, 0, -2.), (1.5, 0, 0), (0, -1.6, 0), (.3, -1.2, 2.2), (-1., -1., 0), (1e-8, 0, 1.), (0, 0, 1e-3), (-2.5, 2., -1.)]
        for k, q in special(L, kind == 'outer', False):
            for v in dirs:
                d = np.array(v)
                case = (impl, kind, k, v)
                rec.state(case)
                rec.trace()
                r = do(rec, kind, impl, q, d, case)
                # parts that cancel exactly leave rounding of the size of the whole
                rec.close(r, REF[kind](q, d), f'{impl} {kind} translation', case, absscale(kind, q, d)+np.abs(q).max()*1e-3+1e-290, 1e-6 if v[0] == 1e-8 else 1e-9)
    elif mode == 'scale':
        # bodies, distances and displacements from micrometres to kilometres
        impl, kind = arg
        L = 5
        sizes = [1e-6, 1e-3, .1, 1., 30., 1e3, 1e6]
        u = np.array([.5, -.4, .76])
        ls = np.arange(L+1)[:, None]
        for a in sizes:
            for dd in sizes:
                for mass in (1e-15, 1., 1e12):
                    q = dense(kind, L)*mass*a**(-ls-1. if kind == 'outer' else ls*1.)
                    d = u*dd
                    case = (impl, kind, 'size', a, 'displacement', dd, 'mass', mass)
                    rec.state(case)
                    rec.trace()
                    judge1(rec, kind, impl, q, d, do(rec, kind, impl, q, d, case), case)
    elif mode == 'octants':
        # every octant, every order of the sizes of the components, every plane and axis
        impl, kind = arg
        for L in (1, 2) if impl == 'cg' else (1, 3, 7):
            q = dense(kind, L)
            for mags in ((.5, .9, 1.4), (1., 1., 1.), (.02, .7, 3.), (.8, .8, .3), (1e-5, .4, .5), (1, 2, 3), (3., 4., 0), (0, 0, 1.1), (1e-3, 1e-3, 1e-3), (0, 1e-4, 2.), (6., 8., 40.)):
                for perm in sorted(set(itertools.permutations(mags))):
                    for sg in itertools.product((1, -1), repeat=3):
                        d = tuple(a*b for a, b in zip(perm, sg))
                        if impl == 'cg' and mags[0] != .5 and sg[0]*sg[1] < 0 and tier == 'quick':
                            continue
                        case = ('octants', impl, kind, L, d)
                        v = np.array(d)
                        rec.state(case)
                        rec.trace()
                        tilt = np.hypot(v[0], v[1])/abs(v[2]) if v[2] else 1
                        judge1(rec, kind, impl, q, v.astype(float), do(rec, kind, impl, q, v, case), case, 1e-9 if tilt == 0 or tilt > 5e-4 else 1e-6)
    elif mode == 'nearby':
        impl = arg
        for kind in REF:
            for L in (1, 3):
                q = dense(kind, L)
                for base in ((1., 2., .5), (0, 0, 1.5), (0, 0, -1.5), (2., 0, 0)):
                    for d in (1e-1, 1e-3, 1e-5, 1e-7):
                        for ax in range(3):
                            for s in (-d, 0, d):
                                v = np.array(base, float)
                                v[ax] += s
                                tilt = np.hypot(v[0], v[1])/abs(v[2]) if v[2] else 1
                                tol = 1e-9 if (tilt == 0 or tilt > 5e-4) else 1e-6
                                rec.state(('near', impl, kind, L, base, d, ax, s))
                                rec.trace()
                                judge1(rec, kind, impl, q, v, do(rec, kind, impl, q, v, (kind, L, v)),
                                       ('nearby', kind, L, base, ax, s), tol)
                    # scaling of the moments is linear
                    for f in (2.0, -1.0, 1e-12, 1e12):
                        v = np.array(base, float)
                        judge1(rec, kind, impl, q*f, v, do(rec, kind, impl, q*f, v, (kind, L, v, f)),
                               ('scaled moments', kind, L, base, f))
                        rec.trans()
    elif mode == 'coax':
        L = arg
        for dr in [.5, 1.0, 2, 3.7, 1e-3, 40., -.5, -2., 1, 10., 1e-5, 3e3, np.float64(.7), np.array(1.3), np.int64(2)]+([1e-9] if L < 4 else []):
            for kind, mk in (('inner', trr.transl_newt_z_RR), ('outer', trr.transl_newt_z_SS), ('in2out', trr.transl_newt_z_SR)):
                q = dense(kind, L)
                M = rec.call(mk, L, dr, _case=(L, dr, kind))
                rec.state(('coax', L, dr, kind))
                r = rec.call(trr.apply_trans_mat, q, M, kind == 'in2out', _case=(L, dr, kind))
                rec.trace()
                d = np.array([0, 0, float(dr)])
                rec.close(r, REF[kind](q, d), f'coaxial {kind} translation', (L, dr, kind), absscale(kind, q, d), 1e-9)
                # multiplication from the right is the transposed map
                for k, p in [('dense', dense('inner', L)), ('outer', dense('outer', L))]+[(n, np.array(b)) for n, b in (hbasis(L) if L <= 2 else [])]:
                    rr = rec.call(trr.apply_trans_mat_right, p, M, _case=(L, dr, kind, k))
                    w = np.zeros((L+1, 2*L+1), complex)
                    for m in range(L+1):
                        w[m:, L+m] = np.asarray(M[m]).T @ p[m:, L+m]
                        if m:
                            w[m:, L-m] = np.conj(np.asarray(M[m])).T @ p[m:, L-m]
                    s = sum(np.abs(np.asarray(x)).max() for x in M)*np.abs(p).max()
                    rec.close(rr, w, f'coaxial {kind} translation multiplied from the right', (L, dr, kind, k), s, 1e-12)
                    rf = rec.call(trr.apply_trans_mat_right, p, M, True, _case=(L, dr, kind, k))
                    rec.close(rf, w[:, ::-1], f'coaxial {kind} translation multiplied from the right, orders reversed', (L, dr, kind, k), s, 1e-12)
                    rec.trans(2)
                for bad in {L+1, L+3}:
                    try:
                        trr.apply_trans_mat(np.zeros((bad+1, 2*bad+1), complex), M)
                        rec.fail('mismatched degree accepted', (L, bad, kind))
                    except ValueError:
                        rec.trans()
                    try:
                        trr.apply_trans_mat_right(np.zeros((bad+1, 2*bad+1), complex), M)
                        rec.fail('mismatched degree accepted', (L, bad, kind, 'right'))
                    except ValueError:
                        rec.trans()
    elif mode == 'hist':
        impl, L, k = arg
        pts = [cloud(4, .7, 2), cloud(1, .9, 5), np.array([[1., 0, 0, 0], [-1, 0, 0, .4]]), cloud(5, .3, 30)][k]
        T = {'x': (.6, 0, 0), '-x': (-.6, 0, 0), 'z': (0, 0, .5), '-z': (0, 0, -.5), 'g': (.2, -.3, .45), '0': (0, 0, 0)}
        OUT = {'>z': (0, 0, 9.), '>g': (5., -6., 4.), '>-z': (0, 0, -8.)}

        def ops(s):
            return list(T)+(list(OUT) if s[0] == 'in' else [])

        def step(s, op, h):
            fr, X, q = s
            if fr == 'in' and op in T:
                X = X.copy()
                X[:, 1:] += T[op]
                r = do(rec, 'inner', impl, q, np.array(T[op]), h)
                rec.close(r, o.inner(L, X), f'{impl}: history of inner translations', [arg, h],
                          np.array([[5*4.0**l] for l in range(L+1)]), 1e-10)
                return ('in', X, r)
            if fr == 'in':
                r = do(rec, 'in2out', impl, q, np.array(OUT[op]), h)
                judge1(rec, 'in2out', impl, q, np.array(OUT[op], float), r, [arg, h])
                X = X.copy()
                X[:, 1:] += OUT[op]
                # truncated series against the true moments of the moved masses
                rr = np.linalg.norm(X[:, 1:]-OUT[op], axis=1).max()/np.linalg.norm(OUT[op])
                rec.close(r[0, L], o.outer(0, X)[0, 0], f'{impl}: outer monopole after moving away', [arg, h],
                          np.abs(X[:, 0]).sum()/5*4*rr**(L+1), 1.0)
                return ('out', X, r)
            r = do(rec, 'outer', impl, q, np.array(T[op]), h)
            judge1(rec, 'outer', impl, q, np.array(T[op], float), r, [arg, h])
            X = X.copy()
            X[:, 1:] += T[op]
            return ('out', X, r)
        bfs(rec, f'hist {arg}', [('start', ('in', pts, o.inner(L, pts)))], ops, step,
            lambda s: s[0].encode()+canon(s[1], 6), 3 if tier == 'quick' else 4)
