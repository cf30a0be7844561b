"""Rotation of multipole moments and the Wigner matrices."""
import itertools
import numpy as np
from mc import oracle as o
from mc.alph import labs, Lab, cloud, ANGLES, layouts
from mc.engine import explore, bfs, canon
from mc.props.p07 import special
import newt.rotations as rot

PI = np.pi
AD = dict(ANGLES)
LQ = [0, 1, 2, 3, 5, 8, 14]
LT = [0, 1, 2, 3, 4, 5, 6, 8, 11, 14, 20, 30, 40]
BETAS = ['0', '1e-5', 'pi/6', '1.1', 'pi/2', '2.4', 'pi-', 'pi', '3pi/2', '2pi', '-0.9', '-pi', '7.9', '-11']
AG = [('0', '0'), ('1.1', '0'), ('0', '2.4'), ('-0.9', '1.1'), ('pi', 'pi/2'), ('7.9', '-11'), ('2pi', '-pi'), ('3pi/2', '1e-5')]


LARGE = [14.2, -17.5, 20.01, 25.3, -31.4, 50., 64.5, -90., 100*PI+.7, 180., 360., -999.5, 1000.3, 4096.25, 12345.6, -1e5, 1e6, 20*PI, -64*PI, 1000*PI]


def tasks(tier, seed):
    Ls = LQ if tier == 'quick' else LT
    t = [(tier, seed, 'conf', L) for L in Ls]
    t += [(tier, seed, 'grid', b) for b in BETAS]
    t += [(tier, seed, 'group', g) for g in ('octahedral', 'z12', 'generic')]
    t += [(tier, seed, 'explicit', l) for l in range(0, 6 if tier == 'quick' else 10)]
    t += [(tier, seed, 'numbers', L) for L in range(13)]
    t += [(tier, seed, 'high', L) for L in (18, 23, 31)]+[(tier, seed, 'layout', L) for L in (1, 3)]
    t += [(tier, seed, 'nearby', 0), (tier, seed, 'order', 0)]
    t += [(tier, seed, 'special', k) for k in range(8)]
    t += [(tier, seed, 'reuse', L) for L in (1, 3, 6)]
    t += [(tier, seed, 'large', k) for k in range(3)]+[(tier, seed, 'swaps', 0)]
    return t


def moments(L):
    """an inner moment set with every component of every degree excited"""
    return o.inner(L, cloud(7, 1.0, 3))


def rows(q):
    return np.sqrt((np.abs(q)**2).sum(1))[:, None]+1e-30


def right(q, Ms):
    L = len(q)-1
    out = np.zeros_like(q)
    for l in range(L+1):
        out[l, L-l:L+l+1] = Ms[l].T @ q[l, L-l:L+l+1]
    return out


SPECIAL = [(0, 0, 0), (.3, .4, .5), (-1., 2., .2), (0, PI/2, 0), (PI/2, 0, 0), (0, 0, .7), (.4, PI, 0), (0, -.6, 0), (PI, PI/2, -PI/2), (1.1, 1e-6, -1.1), (2*PI, .9, -2*PI), (-2., -1., 7.)]


def check_all(rec, L, a, b, g, case, tol=1e-10, full=True):
    R = o.euler_zyz(a, b, g)
    Ms = o.rot_matrices(L, R)
    D = rec.call(rot.wignerDl, L, a, b, g, _case=case)
    rec.trans()
    if not rec.check(len(D) == L+1, 'number of Wigner matrices', case, str(len(D))):
        return
    for l in range(L+1):
        rec.close(D[l], Ms[l], 'Wigner D matrix', [case, l], 1.0, tol)
    q = moments(L)
    w = o.rotate_inner(q, R)
    r = rec.call(rot.rotate_qlm, q, a, b, g, _case=case)
    rec.close(r, w, 'rotated inner moments', case, rows(q), tol)
    rec.check(not np.shares_memory(r, q), 'rotated moments alias their argument', case)
    r2 = rec.call(rot.rotate_qlm_Ds, q, D, _case=case)
    rec.close(r2, w, 'moments rotated with given matrices', case, rows(q), tol)
    r4 = rec.call(rot.rotate_qlm_Ds_right, q, D, _case=case)
    w4 = right(q, Ms)
    rec.close(r4, w4, 'moments multiplied from the right', case, rows(q), tol)
    if full:
        r5 = rec.call(rot.rotate_qlm_Ds_right, q, D, True, _case=case)
        rec.close(r5, right(q, [m.T.conj() for m in Ms]), 'moments multiplied from the right, conjugate transposed', case, rows(q), tol)
        for l in range(L+1):
            rec.close(D[l], Ms[l], 'Wigner D matrix after use', [case, l], 1.0, tol)
        r3 = rec.call(rot.rotate_qlm_Ds, r2, D, True, _case=case)
        rec.close(r3, q, 'conjugate transpose undoes the rotation', case, rows(q), tol)
        d = rec.call(rot.dlmn, L, b, _case=case)
        M0 = o.rot_matrices(L, o.Ry(b))
        for l in range(L+1):
            rec.close(d[l], M0[l], 'Wigner small d matrix', [case, l], 1.0, tol)
        # outer moments: opposite sense of the azimuthal angles
        Q = o.outer(L, cloud(5, 1.0, 9))
        rq = rec.call(rot.rotate_qlm, Q, -a, b, -g, _case=case)
        rec.close(rq, o.rotate_outer(Q, R), 'rotated outer moments', case, rows(Q), tol)


def run(task, rec):
    tier, seed, mode, arg = task
    if mode == 'conf':
        L = arg
        tol = 1e-10 if L <= 20 else 1e-8
        betas = BETAS if L <= 14 else BETAS[::2]
        ags = AG if L <= 14 else AG[3:6]

        def r(c):
            a, g = [AD[k] for k in c['ag']]
            return rec.call(rot.rotate_qlm, moments(L), a, AD[c['beta']], g, _case=[L, str(c)])

        def judge(c, res, case):
            a, g = [AD[k] for k in c['ag']]
            check_all(rec, L, a, AD[c['beta']], g, [L, case], tol)

        def rel_ag(c1, r1, c2, r2, case):
            # gamma-only changes and alpha-only changes are pure phases when
            # the other azimuth is the same
            if c1['ag'][1] == c2['ag'][1]:
                ms = np.arange(-L, L+1)
                rec.close(r1*np.exp(-1j*ms*(AD[c2['ag'][0]]-AD[c1['ag'][0]])), r2, 'azimuthal phase', [L, case], rows(moments(L)), tol*10)
        explore(rec, f'rotations L={L}', dict(ag=ags, beta=betas), r, judge, {'ag': rel_ag}, order=seed)
    elif mode == 'grid':
        b = AD[arg]
        n = 4 if tier == 'quick' else 14
        L = 4
        for (ka, a), (kg, g) in itertools.product(ANGLES[::2 if tier == 'quick' else 1], ANGLES[::3 if tier == 'quick' else 1]):
            rec.state(('grid', arg, ka, kg))
            rec.trace()
            check_all(rec, L, a, b, g, ('grid', ka, arg, kg), full=False)
    elif mode == 'explicit':
        l = arg
        for kb in BETAS:
            for ka, kg in AG:
                a, b, g = AD[ka], AD[kb], AD[kg]
                M = o.rot_matrices(l, o.euler_zyz(a, b, g))[l]
                D = rec.call(rot.Dl, l, a, b, g, _case=(l, ka, kb, kg))
                rec.state(('explicit', l, ka, kb, kg))
                rec.trace()
                rec.trans((2*l+1)**2)
                rec.close(D, M, 'explicit Wigner matrix', (l, ka, kb, kg), 1.0, 1e-9)
                for n in range(-l, l+1):
                    for m in range(-l, l+1):
                        if (n+m+l) % 3 == 0 or l < 3:
                            v = rec.call(rot.Dlmn, l, m, n, a, b, g, _case=(l, m, n, ka, kb, kg))
                            rec.close(v, M[l+n, l+m], 'explicit Wigner matrix element', (l, m, n, ka, kb, kg), 1.0, 1e-9)
    elif mode == 'numbers':
        # every degree, angles that are familiar fractions of a turn, equal and
        # opposite and tiny angles, and every type a number can have
        L = arg
        es = [(PI/4, PI/3, -PI/4), (PI/3, PI/4, PI/3), (PI/5, PI/4, 2*PI/3), (-PI/3, -PI/3, -PI/3), (.7, .7, .7), (.7, -.7, .7), (.5, .5, -.5), (.9, .4, -.9),
              (1, 2, 3), (1, 1, -1), (30, 1., -25), (1e-7, .3, .2), (.3, .2, -1e-7), (1e-3, 1e-3, 1e-3), (-4., 1., .2), (.2, 1., -4.), (1e-4, 1.2, PI/2+1e-6),
              (PI/2+1e-6, 1., PI-1e-6), (PI/2, 1., .2), (.2, 1., PI/2), (PI, .8, .1), (.1, .8, -PI/2), (.3, 3*PI/4, .2), (.3, 5*PI/4, .2), (25., -30., 40.),
              (np.float64(.3), np.float64(.4), np.float64(-.5)), (np.array(.3), np.array(.4), np.array(-.5)), (np.int64(1), np.int64(-2), np.int64(2)),
              (np.float32(.25), np.float32(.5), np.float32(-.125))]
        for n, e in enumerate(es):
            case = ('numbers', L, repr(e))
            rec.state(case)
            rec.trace()
            tol = 1e-10 if not any(isinstance(x, np.float32) for x in e) else 1e-5
            check_all(rec, np.int64(L) if n == 25 else L, *e, case, tol)
            if n < 6 or n in (17, 25, 26) or L < 6:
                M = o.rot_matrices(L, o.euler_zyz(*map(float, e)))[L]
                rec.close(rec.call(rot.Dl, L, *e, _case=case), M, 'explicit Wigner matrix', case, 1.0, max(tol, 1e-9*4.**max(0, L-5)))
                for m, k in [(0, 0), (L, L), (-L, L), (L, -L), (L//2, -1 if L else 0), (-(L//3), L-1 if L else 0), (1 if L else 0, 0), (0, L)]:
                    for ty in (int, np.int64):
                        v = rec.call(rot.Dlmn, ty(L), ty(m), ty(k), *e, _case=case)
                        rec.close(v, M[L+k, L+m], 'explicit Wigner matrix element', (case, m, k), 1.0, max(tol, 1e-9*4.**max(0, L-5)))
                        rec.trans()
    elif mode == 'nearby':
        for L in (1, 4):
            for base in (0.0, .8, PI/2, PI, 2*PI, -PI):
                for d in (1e-2, 1e-3, 1e-5, 1e-7):
                    for s in (-d, d):
                        check_all(rec, L, .3, base+s, -1.1, ('nearby beta', L, base, s), 1e-9)
                        check_all(rec, L, base+s, 1.1, .2, ('nearby alpha', L, base, s), 1e-9, full=False)
                        check_all(rec, L, .2, 1.1, base+s, ('nearby gamma', L, base, s), 1e-9, full=False)
                        rec.state(('near', L, base, s))
                        rec.trace(3)
    elif mode == 'large':
        # many turns, in each angle and in all of them
        for x in LARGE:
            for L in (1, 4, 9):
                for e in ((x, .4, -1.1), (.3, x, -1.1), (.3, .4, x), (x, -x, .2), (x, .5*x, 3*x)):
                    n = LARGE.index(x)
                    if n % 3 == arg:
                        case = ('large', L, e)
                        rec.state(case)
                        rec.trace()
                        check_all(rec, L, *e, case, 1e-10+1e-15*L*max(map(abs, e))*10)
    elif mode == 'swaps':
        # the same angles in other slots and with other signs
        for x, y, z in ((.3, .5, 1.25), (.25, 1., .5)):
            for p in itertools.permutations((x, y, z)):
                for s in itertools.product((1, -1), repeat=3):
                    for back in (False, True):
                        if back:
                            check_all(rec, 3, x, y, z, ('swaps', 'first again', p, s), full=False)
                        e = tuple(a*b for a, b in zip(p, s))
                        check_all(rec, 3, *e, ('swaps', e), full=back)
                        rec.state(('swaps', e, back))
                        rec.trace()
    elif mode == 'special':
        L = 4 if tier == 'quick' else 6
        for n, (k, q) in enumerate(special(L)):
            if n % 8 != arg:
                continue
            for e in SPECIAL:
                R = o.euler_zyz(*e)
                w = o.rotate_inner(q, R)
                case = (k, e)
                rec.state(case)
                rec.trace(2)
                sc = (rows(q)+1e-290)*(100 if e[1] == 1e-6 else 1)      # the cosine of a tiny angle loses digits
                rec.close(rec.call(rot.rotate_qlm, q, *e, _case=case), w, 'rotated moments', case, sc, 1e-10)
                D = rec.call(rot.wignerDl, L, *e, _case=case)
                rec.close(rec.call(rot.rotate_qlm_Ds, q, D, _case=case), w, 'moments rotated with given matrices', case, sc, 1e-10)
                rec.close(rec.call(rot.rotate_qlm_Ds, w, D, True, _case=case), q, 'conjugate transpose undoes the rotation', case, sc, 1e-10)
    elif mode == 'reuse':
        # histories of uses of one set of matrices
        L = arg
        q0 = moments(L)
        e = (.3, .4, -.5)
        Ms = o.rot_matrices(L, o.euler_zyz(*e))
        D = rec.call(rot.wignerDl, L, *e, _case='reuse')
        D0 = [d.copy() for d in D]

        def apply(q, op):
            out = np.zeros_like(q)
            for l in range(L+1):
                M = {'use': Ms[l], 'undo': Ms[l].T.conj(), 'right': Ms[l].T, 'right undo': Ms[l].conj()}[op]
                out[l, L-l:L+l+1] = M @ q[l, L-l:L+l+1]
            return out

        def step(s, op, h):
            r = rec.call(rot.rotate_qlm_Ds_right if 'right' in op else rot.rotate_qlm_Ds, s[0], D, 'undo' in op, _case=h)
            w = apply(s[1], op)
            rec.close(r, w, 'history of uses of one set of matrices', [L, h], rows(q0), 1e-10)
            for l in range(L+1):
                rec.check(np.array_equal(D[l], D0[l]), 'the matrices are not modified', [L, h, l])
            return (r, w)
        bfs(rec, f'reuse {L}', [('start', (q0, q0.copy()))], lambda s: ['use', 'undo', 'right', 'right undo'], step, lambda s: canon(s[1], 9), 4 if tier == 'quick' else 6)
    elif mode == 'high':
        for e in [(.3, .4, .5), (-2., 2.6, 1.), (.2, -1.3, 7.), (0, PI/2, 0), (.1, PI, 0)][:3 if tier == 'quick' and arg > 20 else 5]:
            rec.state(('high', arg, e))
            rec.trace()
            check_all(rec, arg, *e, ('high', arg, e), 1e-8)
    elif mode == 'layout':
        L = arg
        q0 = moments(L)
        for e in SPECIAL[:6]:
            w = o.rotate_inner(q0, o.euler_zyz(*e))
            D = rec.call(rot.wignerDl, L, *e, _case=e)
            for lay, q in layouts(q0):
                case = (L, lay, e)
                rec.state(case)
                rec.trace(3)
                rec.close(rec.call(rot.rotate_qlm, q, *e, _case=case), w, 'rotated moments', case, rows(q0), 1e-10)
                for Ds in (D, [np.asfortranarray(d) for d in D], [np.repeat(d, 2, 0)[::2] for d in D]):
                    rec.close(rec.call(rot.rotate_qlm_Ds, q, Ds, _case=case), w, 'moments rotated with given matrices', case, rows(q0), 1e-10)
                    rec.close(rec.call(rot.rotate_qlm_Ds_right, q, Ds, _case=case), right(q0, D), 'moments multiplied from the right', case, rows(q0), 1e-10)
    elif mode == 'order':
        # the same angles asked for at different degrees, in every order
        for perm in itertools.permutations([0, 2, 1, 5]):
            for L in perm:
                check_all(rec, L, .4, 1.3, -.7, ('order', perm, L))
                rec.state(('order', perm, L))
                rec.trace()
    elif mode == 'group':
        L = 5
        gens = {'octahedral': [(PI/2, 0, 0), (0, PI/2, 0), (0, -PI/2, 0), (PI, PI, 0)],
                'z12': [(PI/6, 0, 0), (0, 0, -PI/6), (0, PI, 0), (2*PI, 0, PI/2)],
                'generic': [(.3, 1.2, -2.), (2.5, -.4, 1.), (0, 2.0, 0), (-4., 3.5, 7.)]}[arg]
        depth = {'octahedral': 12, 'z12': 14, 'generic': 4 if tier == 'quick' else 6}[arg]
        P = cloud(7, 1.0, 3)

        def step(s, op, h):
            X, q = s
            R = o.euler_zyz(*gens[op])
            X = X.copy()
            X[:, 1:] = X[:, 1:] @ R.T
            q2 = rec.call(rot.rotate_qlm, q, *gens[op], _case=h)
            rec.close(q2, o.inner(L, X), 'composition of rotations', [arg, h], rows(q), 1e-9)
            return (X, q2)
        bfs(rec, 'group '+arg, [('id', (P, o.inner(L, P)))], lambda s: list(range(len(gens))), step,
            lambda s: canon(s[0], 6), depth)
