"""Multipole moments of point-mass arrays (inner, outer, inner Yukawa)."""
import numpy as np
from mc import oracle as o
from mc.alph import point_sets, structured, lookalikes, labs, Lab, cloud
from mc.engine import explore, bfs, canon
import newt.pg2Multi as pgm

LS = [0, 1, 2, 3, 4, 5, 7, 10, 13, 20, 31]
LT = sorted(set(LS+list(range(6, 36))+[40, 50]))
SIZES = [1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 10001, 20000]


def psets():
    d = point_sets()
    d = {k: v for k, v in d.items() if not k.startswith('single')}
    d['far'] = cloud(6, 50.0, 2)
    d['micro'] = cloud(6, 1e-3, 4)
    d['xyplane'] = np.array([[1., 1, 0, 0], [2, 0, 1, 0], [-1, -1, 0, 0], [1.5, 0, -1, 0], [1, .6, .8, 0]])
    d['octants'] = np.array([[1.+.1*i, (-1)**i, (-1)**(i//2), (-1)**(i//4)] for i in range(8)])*[1, .7, .6, .5]
    d['-x'] = np.array([[1., -1, 0, 0]])
    d['-z'] = np.array([[1., 0, 0, -1.3]])
    d['origin+'] = np.array([[3., 0, 0, 0], [1, .5, -.2, .4], [-2, 0, 0, 0], [1, 0, 0, .5]])
    d['neutral'] = np.array([[1., .5, .2, .1], [-1., -.5, .2, .3]])
    # light masses far out and heavy ones close in (and the reverse): every mass dominates some degree
    d['range up'] = np.array([[10.**(-4*k), 8.**k*np.cos(k), -8.**k*np.sin(k), 8.**k*np.cos(2*k)] for k in range(-3, 5)])
    d['range down'] = np.array([[10.**(4*k), 8.**k*np.cos(k), -8.**k*np.sin(k), 8.**k*np.cos(2*k)] for k in range(-3, 4)])
    d['light'] = np.array([[1e3, .1, 0, 0], [-1e3, .1, 1e-9, 0], [1e-10, 5, -4, 3], [1e-20, 200, 300., -100]])
    d['-0'] = np.array([[1., -0.0, -0.0, 0.8], [2., -.5, -0.0, -.1], [1., -.5, 0.0, -.1]])
    return d


def kinds(tier):
    k = ['inner', 'outer']
    k += [('yukawa', l) for l in ([0.1, 1.0, 3, 40.] if tier == 'quick' else [.05, .1, .5, 1.0, 3, 40., 1e3])]
    return k


def scale(kind, L, a):
    m = np.abs(a[:, 0].astype(float))
    r = np.sqrt((a[:, 1:].astype(float)**2).sum(1))
    out = np.zeros((L+1, 1))
    for l in range(L+1):
        f = np.sqrt((2*l+1)/4/np.pi)
        if kind == 'inner':
            out[l] = f*(m*r**l).sum()
        elif kind == 'outer':
            out[l] = f*(m/r**(l+1)).sum()
        else:
            out[l] = f*(m*o.mod_bessel_i(l, r/kind[1])).sum()
    return out


def table(kind, L, a, rec, case):
    if kind == 'inner':
        return rec.call(pgm.qmoments, L, a, _case=case)
    if kind == 'outer':
        return rec.call(pgm.Qmomentsb, L, a, _case=case)
    return rec.call(pgm.imoments, L, kind[1], a, _case=case)


def single(kind, l, m, a, rec, case):
    if kind == 'inner':
        return rec.call(pgm.qmoment, l, m, a, _case=case)
    if kind == 'outer':
        return rec.call(pgm.Qmomentb, l, m, a, _case=case)
    return rec.call(pgm.imoment, l, m, kind[1], a, _case=case)


def want(kind, L, a):
    a = np.asarray(a, float)
    if kind == 'inner':
        return o.inner(L, a)
    if kind == 'outer':
        return o.outer(L, a)
    return o.inner_yuk(L, kind[1], a)


def usable(kind, a):
    r2 = (a[:, 1:].astype(float)**2).sum(1)
    if kind == 'outer':
        return np.all(r2 > 0)
    if kind != 'inner':
        return np.sqrt(r2.max())/kind[1] < 60
    return True


def tasks(tier, seed):
    t = [(tier, seed, 'tables', k) for k in psets()]
    t += [(tier, seed, 'sizes', k) for k in range(6)]
    t += [(tier, seed, 'hist', k) for k in ('inner', 'outer', 'yukawa')]
    t += [(tier, seed, 'inplace', 0)]
    t += [(tier, seed, 'structured', k) for k in range(6)]
    t += [(tier, seed, 'numbers', k) for k in ('inner', 'outer', 'yukawa')]
    t += [(tier, seed, 'lookalikes', k) for k in ('inner', 'outer', ('yukawa', .8))]
    return t


def run(task, rec):
    tier, seed, mode, arg = task
    if mode == 'tables':
        a = psets()[arg]
        if arg in ('far', 'micro', 'tiny', 'light', 'range up', 'range down'):
            Ls = [l for l in (LS if tier == 'quick' else LT) if l <= 20]
        else:
            Ls = LS if tier == 'quick' else LT
        al = dict(kind=[Lab(str(k), k) for k in kinds(tier) if usable(k, a)], L=Ls)

        def judge(c, r, case):
            k, L = c['kind'].v, c['L']
            W, S = want(k, L, a), scale(k, L, a)
            if not rec.close(r, W, f'{k}: moments', [arg, case], S, 1e-11):
                return
            if L in (0, 1, 4, 7, 13):
                for l in range(L+1):
                    for m in range(-l, l+1):
                        v = single(k, l, m, a, rec, [arg, case, l, m])
                        rec.trans()
                        rec.close(v, W[l, L+m], f'{k}: single moment', [arg, case, l, m], S[l, 0], 1e-11)

        def rel(c1, r1, c2, r2, case):
            L1, L2 = c1['L'], c2['L']
            rec.close(r2[:L1+1, L2-L1:L2+L1+1], r1, 'lower degrees independent of the maximum degree', [arg, case],
                      scale(c1['kind'].v, L1, a), 1e-11)
        explore(rec, 'tables '+arg, al, lambda c: table(c['kind'].v, c['L'], a, rec, [arg, str(c)]), judge,
                {'L': rel}, order=seed)
    elif mode == 'sizes':
        for n in SIZES[arg::6]+([] if tier == 'quick' else list(range(4+arg, 400, 6))):
            a = cloud(n, 1.0, n)
            for k in ('inner', 'outer', ('yukawa', .8)):
                for L in (0, 2, 5):
                    r = table(k, L, a, rec, (n, k, L))
                    rec.state(('size', n, k, L))
                    rec.trace()
                    rec.close(r, want(k, L, a), f'{k}: moments of many points', (n, k, L), scale(k, L, a), 1e-11)
                v = single(k, 3, 2, a, rec, (n, k))
                rec.close(v, want(k, 3, a)[3, 5], f'{k}: single moment of many points', (n, k), scale(k, 3, a)[3], 1e-11)
    elif mode == 'structured':
        st = structured()
        for lab in list(st)[arg::6]:
            for sc in (1., 1e-4, 50.):
                a = st[lab].astype(float)
                if sc != 1:
                    a[:, 1:] *= sc
                elif 'int' in lab:
                    a = st[lab]
                for k in ('inner', 'outer', ('yukawa', .8*sc)):
                    for L in ((0, 1, 3, 6, 12) if tier == 'quick' else range(16)):
                        case = ('structured', lab, sc, k, L)
                        W, S = want(k, L, a), scale(k, L, a)+1e-300
                        r = table(k, L, a, rec, case)
                        rec.state(case)
                        rec.trace()
                        rec.close(r, W, f'{k}: moments', case, S, 1e-11)
                        if L == 3 or tier != 'quick' and L == 8:
                            for l in range(L+1):
                                for m in range(-l, l+1):
                                    rec.close(single(k, l, m, a, rec, case), W[l, L+m], f'{k}: single moment', (case, l, m), S[l, 0], 1e-11)
                                    rec.trans()
    elif mode == 'numbers':
        # every degree, every length of the Yukawa force, and every type a number can have
        pools = {'unit': cloud(5, 1., 17), 'far': cloud(4, 20., 8), 'near': cloud(4, 1e-3, 8), 'tiny': cloud(3, 2e-7, 9), 'huge': cloud(3, 3e5, 4),
                 'apart': np.array([[1e6, 3e-4, -1e-4, 2e-4], [1., .3, .4, -.5], [1e-6, 300., -200, 100.]]),
                 'near z': np.array([[1., 1e-4, -2e-4, 1.1], [2., -3e-5, 0, -.7], [.5, 0, 1e-3, 2.]]),
                 'near x': np.array([[1., 1.1, 1e-6, -2e-6], [2., -.7, -1e-9, 0], [.5, 2., 1e-3, 1e-12]])}
        lam = [1e-8, 1e-4, .03, 1, 2., 1e5, 1e10, np.float64(.7), np.array(.6), np.int64(3), np.float32(.5)]
        for lab, a in pools.items():
            far = np.sqrt((a[:, 1:]**2).sum(1).max())
            for k in ([(arg, v) for v in lam+[far/20, far, far*300] if far/v < 60] if arg == 'yukawa' else [arg]):
                tol = 1e-11 if not lab.startswith('near ') else 1e-9
                for L in ((6, 8, 9) if lab != 'unit' else (6, 8, 9, 11, 12, 15, 17, np.int64(4), np.int32(3))):
                    if arg == 'yukawa' and far/float(k[1]) < 1e-6 and L > 6:
                        continue      # the values themselves underflow
                    case = ('numbers', lab, str(k), repr(L))
                    W, S = want(k, int(L), a), scale(k, int(L), a)+1e-300
                    rec.state(case)
                    rec.trace()
                    rec.close(table(k, L, a, rec, case), W, f'{k}: moments', case, S, tol)
                for l in (2, 6, 21) if lab != 'unit' else (6, 8, 9, 11, 21, 25, 31, 36):
                    if far/float(k[1] if arg == 'yukawa' else 1) < 1e-3 and l > 6 or far > 1e3 and l > 20:
                        continue
                    W, S = want(k, l, a), scale(k, l, a)+1e-300
                    for m in range(-l, l+1, 1 if l < 7 else 3 if l < 12 else 7):
                        for ty in (int, np.int64, np.int32) if m in (0, 2, -5) else (int,):
                            case = ('numbers', lab, str(k), l, m, ty.__name__)
                            rec.close(single(k, ty(l), ty(m), a, rec, case), W[l, l+m], f'{k}: single moment', case, S[l, 0], tol)
                            rec.trans()
    elif mode == 'lookalikes':
        # arrays that have much in common, one after the other, and each after the first
        for n, k0 in ((3, 0), (2, 5)):
            arrs = list(lookalikes(n, k0).items())
            for back in (False, True):
                for lab, a in arrs:
                    for b in (arrs[0][1], a) if back else (a,):
                        case = ('lookalikes', arg, n, lab, back)
                        S = scale(arg, 4, b)+1e-300
                        rec.close(table(arg, 4, b, rec, case), want(arg, 4, b), f'{arg}: moments', case, S, 1e-11)
                        for l, m in ((1, 0), (2, 1), (3, -2), (4, 4)) if tier == 'quick' else [(l, m) for l in range(5) for m in range(-l, l+1)]:
                            rec.close(single(arg, l, m, b, rec, case), want(arg, l, b)[l, l+m], f'{arg}: single moment', (case, l, m), S[l, 0], 1e-11)
                        rec.trans()
                    rec.state(('lookalikes', arg, n, lab))
                    rec.trace()
    elif mode == 'inplace':
        for k in ('inner', 'outer', ('yukawa', .8), ('yukawa', .80001)):
            a = np.zeros((5, 4))
            for j in range(40):
                a[:] = cloud(5, 1.0, 7*j)
                rec.state(('inplace', k, j))
                rec.trans()
                rec.close(table(k, 3, a, rec, (k, j)), want(k, 3, a), f'{k}: array refilled in place', j, scale(k, 3, a), 1e-11)
                rec.close(single(k, 2, -1, a, rec, (k, j)), want(k, 2, a)[2, 1], f'{k}: array refilled in place (single)', j,
                          scale(k, 2, a)[2], 1e-11)
    else:
        kind = arg if arg != 'yukawa' else ('yukawa', .9)
        pool = cloud(10, 1.0, 5)
        pool[4, 1:] = [0, 0, -1.1]
        pool[5, 1:] = [0, .9, 0]
        L = 4

        def ops(s):
            out = ['neg', 'x2', 'rotz', 'flipz', 'mirror', 'rev']
            if len(s[0]) < 4:
                out.append('add')
            if len(s[0]) > 1:
                out.append('drop')
            if arg != 'yukawa':
                out += ['grow']
            if arg != 'outer' and len(s[0]) < 4:
                out.append('origin')
            return out
        ms = np.arange(-L, L+1)
        ls = np.arange(L+1)[:, None]

        def step(s, op, h):
            a, q = s[0].copy(), s[1].copy()
            if op == 'add':
                p = pool[len(a)+1:len(a)+2]
                q = q+want(kind, L, p)
                a = np.concatenate([a, p])
            elif op == 'origin':
                p = np.array([[1.5, 0, 0, 0]])
                q = q.copy()
                q[0, L] += 1.5/np.sqrt(4*np.pi)
                a = np.concatenate([p, a])
            elif op == 'drop':
                q = q-want(kind, L, a[-1:])
                a = a[:-1]
            elif op == 'neg':
                a[:, 0] *= -1
                q = -q
            elif op == 'x2':
                a[:, 0] *= 2
                q = 2*q
            elif op == 'grow':
                a[:, 1:] *= 1.5
                q = q*1.5**(ls if arg == 'inner' else -ls-1)
            elif op == 'rotz':
                a[:, 1:] = a[:, 1:] @ o.Rz(.7).T
                q = q*np.exp((-1j if arg != 'outer' else 1j)*ms*.7)
            elif op == 'flipz':      # z -> -z
                a[:, 3] *= -1
                q = q*(-1.)**(ls+ms)
            elif op == 'mirror':     # y -> -y
                a[:, 2] *= -1
                q = np.conj(q)
            elif op == 'rev':
                a = a[::-1]
            r = table(kind, L, a, rec, h)
            rec.close(r, q, f'{kind}: history', h, scale(kind, L, a)*4+scale(kind, L, pool), 1e-11)
            return (a, q)
        bfs(rec, 'hist '+arg, [('start', (pool[:1], want(kind, L, pool[:1])))], ops, step,
            lambda s: canon(s[0], 6), 4 if tier == 'quick' else 6, maxstates=60000)
