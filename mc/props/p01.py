"""Newtonian force and torque between point-mass arrays."""
import numpy as np
from mc import oracle as o
from mc.alph import point_sets, structured, lookalikes, labs, Lab, cloud
from mc.engine import explore, bfs, canon, NotApplicable
import newt.glib as glb

LAW = None


def law_force(a, b, law, G):
    """exact pair sum; returns F, T, and their natural scales"""
    a = np.atleast_2d(np.asarray(a)).astype(np.longdouble)
    b = np.atleast_2d(np.asarray(b)).astype(np.longdouble)
    d = b[None, :, 1:]-a[:, None, 1:]
    r = np.sqrt((d*d).sum(-1))
    g = np.longdouble(G)*a[:, None, 0]*b[None, :, 0]*law(r)
    f = (g/r)[..., None]*d
    Fi = f.sum(1)
    x = a[:, 1:]
    T = np.cross(x, Fi).sum(0)
    sF = float(np.abs(g).sum())
    sT = float((np.abs(g)*np.sqrt((x*x).sum(-1))[:, None]).sum())
    return Fi.sum(0).astype(float), T.astype(float), sF, sT


def newton(r):
    return 1/r**2


OFFS = [('x10', (10., 0, 0)), ('-y5', (0, -5., 0)), ('z4', (0, 0, 4.)), ('gen', (3.1, -2.2, 4.5)),
        ('far', (-1e4, 2e4, 3e3)), ('near', (2.6, 2.5, -2.7))]
SIZES_Q = [2, 3, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4095, 4097, 5001,
           10001, 20000, 65537, 100003]
SIZES_T = sorted(set(list(range(1, 300))+SIZES_Q+[4096, 8193, 10000, 16385, 32769, 65537]))


def shift(a, d):
    b = np.array(a, dtype=float)
    if b.ndim == 1:
        b[1:] += d
    else:
        b[:, 1:] += d
    if a.flags.f_contiguous and not a.flags.c_contiguous:
        b = np.asfortranarray(b)
    return b


def tasks(tier, seed):
    ps = list(point_sets())
    t = [('pairs', k) for k in ps]
    t += [('field', k) for k in ps if k.startswith('single') or k in ('one', 'origin', 'int')]
    t += [('sizes', i) for i in range(8)]
    t += [('split', k) for k in range(4)]
    t += [('grow', k) for k in range(6)]
    t += [('inplace', 0), ('scales', 0)]
    t += [('structured', k) for k in range(8)]
    t += [('lookalikes', k) for k in range(2)]
    return [(tier, seed)+x for x in t]


def fns():
    return dict(pm=lambda a, b: glb.point_matrix_gravity(a, b),
                arr=lambda a, b: glb.gmmr2_array(a, b), law=newton, G=o.BIG_G, name='gravity')


def run(task, rec, F=fns, params=(None,)):
    tier, seed, kind, arg = task
    for par in params:
        go(rec, tier, seed, kind, arg, F() if par is None else F(par), par)


def go(rec, tier, seed, kind, arg, f, par):
    ps = point_sets()
    pm, arr, law, G, nm = f['pm'], f['arr'], f['law'], f['G'], f['name']
    lab = f"{nm} {par if par is not None else ''}"

    def judge_pair(a, b, r, case):
        Fw, Tw, sF, sT = law_force(a, b, law, G)
        if not rec.check(isinstance(r, tuple) and len(r) == 2, lab+': result', case, str(type(r))):
            return
        rec.close(r[0], Fw, lab+' force', case, sF, 1e-11)
        rec.close(r[1], Tw, lab+' torque', case, sT, 1e-11)

    def third_law(a, b, r, case):
        """the reaction: force on b by a is opposite and so is the torque about
        the common origin"""
        rr = rec.call(pm, b, a, _case=case)
        _, _, sF, sT = law_force(a, b, law, G)
        _, _, _, sT2 = law_force(b, a, law, G)
        rec.close(np.asarray(rr[0])+np.asarray(r[0]), np.zeros(3), lab+' third law', case, sF, 1e-11)
        rec.close(np.asarray(rr[1])+np.asarray(r[1]), np.zeros(3), lab+' third law (torque)', case, sT+sT2, 1e-11)
        rec.trans()

    if kind == 'pairs':
        a = ps[arg]
        al = dict(second=labs(ps), offset=labs(OFFS), move=[Lab('second', 0), Lab('first', 1)])

        def mk(c):
            d = np.array(c['offset'].v)
            if c['move'].v:
                return shift(a, d), c['second'].v
            return a, shift(c['second'].v, d)

        def r(c):
            A, B = mk(c)
            return rec.call(pm, A, B, _case=[arg, str(c)])

        def judge(c, res, case):
            A, B = mk(c)
            judge_pair(A, B, res, case)
            third_law(A, B, res, case)
        explore(rec, f'{lab} pairs {arg}', al, r, judge, order=seed)
    elif kind == 'field':
        a = np.atleast_2d(ps[arg])[0]
        al = dict(second=labs(ps), offset=labs(OFFS))

        def r(c):
            return rec.call(arr, a, shift(c['second'].v, c['offset'].v), _case=[arg, str(c)])

        def judge(c, res, case):
            B = shift(c['second'].v, c['offset'].v)
            Fw, _, sF, _ = law_force(a, B, law, G)
            rec.close(res, Fw, lab+' force on one mass', case, sF, 1e-11)
        explore(rec, f'{lab} field {arg}', al, r, judge, order=seed)
    elif kind == 'sizes':
        sizes = (SIZES_T if tier == 'thorough' else SIZES_Q)[arg::8]
        for n in sizes:
            for k in ([1, 3] if n > 600 else [1, 2, 5]) if n < 40000 else [1] if kind == 'sizes' and tier == 'quick' else [2]:
                big = cloud(n, 1.0, seed=arg)
                sm = cloud(k, 0.5, seed=77)
                sm[:, 1:] += [2.5, 1.0, -2.0]
                for A, B, w in ((sm, big, 'source'), (big, sm, 'test body')):
                    case = f'{n} points in the {w}, {k} in the other'
                    rec.state((lab, case))
                    r = rec.call(pm, A, B, _case=case)
                    rec.trace()
                    judge_pair(A, B, r, case)
        # square
        for n in ([65, 129] if tier == 'quick' else [65, 129, 257, 513])[arg % 2::2]:
            A = cloud(n, 1.0, 1)
            B = cloud(n+1, 1.0, 9)
            B[:, 1] += 2.5
            r = rec.call(pm, A, B, _case=n)
            rec.state((lab, 'sq', n))
            rec.trace()
            judge_pair(A, B, r, f'{n}x{n+1}')
    elif kind == 'split':
        # superposition over every way to cut both arrays in two
        n1, n2 = [(5, 6), (6, 4), (3, 9), (8, 2)][arg]
        A = cloud(n1, 1.0, arg)
        B = cloud(n2, 1.0, 31+arg)
        B[:, 1:] += [2.4, -0.3, 1.5]
        whole = rec.call(pm, A, B)
        judge_pair(A, B, whole, f'split {n1} {n2}')
        _, _, sF, sT = law_force(A, B, law, G)
        for i in range(1, n1):
            for j in range(1, n2):
                parts = [rec.call(pm, x, y) for x in (A[:i], A[i:]) for y in (B[:j], B[j:])]
                rec.state((lab, 'cut', arg, i, j))
                rec.trans(4)
                rec.trace()
                case = f'cut {n1}|{n2} at {i},{j}'
                rec.close(sum(np.asarray(p[0]) for p in parts), whole[0], lab+' superposition (force)', case, sF, 1e-11)
                rec.close(sum(np.asarray(p[1]) for p in parts), whole[1], lab+' superposition (torque)', case, sT, 1e-11)
    elif kind == 'grow':
        # histories: grow / thin / permute / rigidly move the pair of bodies
        base = cloud(12, 1.0, 5*arg)
        depth = 4 if tier == 'quick' else 6
        init = (base[:1].copy(), base[1:2]+[0, 3.0, 1, -2])

        def ops(s):
            out = ['add1', 'add2', 'neg1', 'dbl2', 'swap', 'shift', 'rot', 'rev']
            return [q for q in out if not (q == 'add1' and len(s[0]) > 4)]

        def step(s, op, h):
            a, b = s[0].copy(), s[1].copy()
            if op == 'add1':
                a = np.concatenate([a, base[2+len(a):3+len(a)]+[0, 0.1, 0, 0.2]])
            elif op == 'add2':
                b = np.concatenate([b, base[7+len(b) % 5:8+len(b) % 5]+[0, 3.0, 1, -2+0.01*len(b)]])
            elif op == 'neg1':
                a[0, 0] *= -1
            elif op == 'dbl2':
                b[-1, 0] *= 2
            elif op == 'swap':
                a, b = b, a
            elif op == 'shift':
                a[:, 1:] += [1.0, -2.0, 0.5]
                b[:, 1:] += [1.0, -2.0, 0.5]
            elif op == 'rot':
                R = o.axis_angle([1, 2, -1], 0.8)
                a[:, 1:] = a[:, 1:] @ R.T
                b[:, 1:] = b[:, 1:] @ R.T
            elif op == 'rev':
                a, b = a[::-1], b[::-1]
            if np.min(((a[:, None, 1:]-b[None, :, 1:])**2).sum(-1)) < 1e-4:
                raise NotApplicable        # coincident masses: no force defined
            r = rec.call(pm, a, b, _case=h)
            judge_pair(a, b, r, h)
            return (a, b)
        bfs(rec, f'{lab} grow {arg}', [('start', init)], ops, step,
            lambda s: canon(s[0], 6)+b'|'+canon(s[1], 6), depth)
    elif kind == 'inplace':
        # the same array objects, refilled in place between the calls
        A = np.zeros((5, 4))
        B = np.zeros((6, 4))
        for k in range(60):
            A[:] = cloud(5, 1.0, 3*k)
            B[:] = cloud(6, 1.0, 5*k+1)
            B[:, 1+k % 3] += 2.6
            r = rec.call(pm, A, B, _case=k)
            judge_pair(A, B, r, f'arrays refilled in place, round {k}')
            rec.state((lab, 'inplace', k))
            rec.trans()
    elif kind == 'lookalikes':
        # bodies that have much in common, one after the other
        n, k0 = ((3, 0), (2, 5))[arg]
        la, lb = lookalikes(n, k0), lookalikes(n, k0, (4., -3., 2.))
        a0, b0 = next(iter(la.values())), next(iter(lb.values()))
        for back in (False, True):
            for x in la:
                for A, B in (([(a0, b0)] if back else [])+[(la[x], b0), (a0, lb[x]), (la[x], lb[x])]):
                    case = ('lookalikes', n, x, back)
                    judge_pair(A, B, rec.call(pm, A, B, _case=case), case)
                    Fw, _, sF, _ = law_force(A[0], B, law, G)
                    rec.close(rec.call(arr, A[0], B, _case=case), Fw, lab+' force on one mass', case, sF, 1e-11)
                    rec.trans(2)
                rec.state((lab, 'lookalikes', n, x))
                rec.trace()
    elif kind == 'structured':
        # bodies with symmetries, in every pair, apart and one inside the other
        st = structured()
        names = list(st)
        for i in range(arg, len(names), 8):
            for j in range(len(names)):
                offs = [(0, 0, 0), (3.1, -2.2, 4.5), (0, 0, 4.), (0, -5., 0)]
                for off in offs if tier == 'thorough' else (offs[0], offs[1+(i+j) % 3]):
                    A, B = st[names[i]].copy(), shift(st[names[j]], off)
                    if np.min(((A[:, None, 1:]-B[None, :, 1:])**2).sum(-1)) < 1e-4:
                        continue
                    case = (names[i], names[j], off)
                    r = rec.call(pm, A, B, _case=case)
                    judge_pair(A, B, r, case)
                    if (i+j) % 5 == 0:
                        third_law(A, B, r, case)
                        Fw, _, sF, _ = law_force(A[-1], B, law, G)
                        rec.close(rec.call(arr, A[-1].astype(float), B, _case=case), Fw, lab+' force on one mass', case, sF, 1e-11)
                    rec.state((lab,)+case)
                    rec.trace()
    elif kind == 'scales':
        for s in (1e-9, 1e-5, 1e-3, 1.0, 1e3, 1e7):
            for m in (1e-12, 1.0, 1e24):
                for n in (1, 4):
                    A = cloud(n, 1.0, 3)
                    B = cloud(n+1, 1.0, 8)
                    B[:, 3] += 2.3
                    A[:, 1:] *= s
                    B[:, 1:] *= s
                    A[:, 0] *= m
                    if f.get('rescale'):
                        f2 = f['rescale'](s)
                        r = rec.call(f2['pm'], A, B, _case=(s, m, n))
                        Fw, Tw, sF, sT = law_force(A, B, f2['law'], f2['G'])
                        rec.close(r[0], Fw, lab+' force', (s, m, n), sF, 1e-11)
                        rec.close(r[1], Tw, lab+' torque', (s, m, n), sT, 1e-11)
                    else:
                        r = rec.call(pm, A, B, _case=(s, m, n))
                        judge_pair(A, B, r, (s, m, n))
                    rec.state((lab, 'scale', s, m, n))
                    rec.trace()
        # masses and distances of very different sizes in one array: each order
        # of magnitude must come through when it alone dominates the answer
        for mag in (1e-6, 1e-12, 1e-18, 1e-30):
            for dist in (1.0, 1e-3, 1e-6, 1e-9):
                for heavy in ('far source', 'opposed pair', 'heavy body'):
                    A = cloud(3, dist, 3)
                    A[:, 1:] *= .3
                    B = np.array([[mag, dist, -.5*dist, .25*dist], [mag*.7, -.5*dist, dist, dist]])
                    if heavy == 'far source':
                        B = np.concatenate([B, [[1.0, 1e3, -2e3, 1e3]]])
                    elif heavy == 'opposed pair':
                        B = np.concatenate([B, [[1.0, 3e2, 0, 0], [-1.0, 3e2, 0, 0]]])
                    else:
                        A = np.concatenate([A, [[1.0, -1e3, 2e3, 5e2]]])
                    case = (mag, dist, heavy)
                    r = rec.call(pm, A, B, _case=case)
                    judge_pair(A, B, r, case)
                    # the light sources on their own
                    parts = [rec.call(pm, A[i:i+1], B[j:j+1], _case=case) for i in range(len(A)) for j in range(len(B))]
                    ij = [(i, j) for i in range(len(A)) for j in range(len(B))]
                    for (i, j), q in zip(ij, parts):
                        judge_pair(A[i:i+1], B[j:j+1], q, (case, i, j))
                    rec.state((lab, 'dynamic range', case))
                    rec.trans(len(parts))
                    rec.trace()
        # close approach of two masses inside extended arrays
        for eps in (1e-1, 1e-3, 1e-6, 1e-9):
            A = cloud(3, 1.0, 3)
            B = cloud(3, 1.0, 8)
            B[1, 1:] = A[2, 1:]+np.array([eps, -eps/2, eps/4])
            r = rec.call(pm, A, B, _case=eps)
            judge_pair(A, B, r, f'close approach {eps}')
            rec.state((lab, 'close', eps))
            rec.trace()
