"""Clebsch-Gordan coefficients against exact rational arithmetic."""
import math
from fractions import Fraction
import numpy as np
from mc import oracle as o
from mc.alph import cloud
from mc.props.p07 import hbasis, absscale
import newt.clebschGordan as cg
import newt.translations as trs

FN = {'log-gamma form': cg.cgCoeff, 'binomial form': cg.cgCoeff2}


def top(tier):
    return 12 if tier == 'quick' else 15


def tasks(tier, seed):
    n = 6 if tier == 'quick' else 9
    t = [(tier, seed, 'all', (j1, j2)) for j1 in range(n) for j2 in range(n)]
    # every coefficient that does not vanish by the conservation of M
    t += [(tier, seed, 'on', (j1, j2)) for j1 in range(top(tier)) for j2 in range(top(tier)) if max(j1, j2) >= n]
    t += [(tier, seed, 'high', j) for j in ((8, 10, 13) if tier == 'quick' else (8, 10, 13, 16, 20, 24))]
    t += [(tier, seed, 'ladder', j) for j in range(4)]
    t += [(tier, seed, 'small', j) for j in range(top(tier), 29)]
    t += [(tier, seed, 'coef', k) for k in COEF]
    t.sort(key=lambda x: 0 if x[2] == 'coef' else 0 if x[2] == 'high' else -(x[3] if isinstance(x[3], int) else x[3][0]*x[3][1]))
    return t


COEF = {'inner': trs.translate_qlm, 'outer': trs.translate_Qlmb, 'in2out': trs.translate_q2Q}
DIR = [(.3, -1.2, 2.2), (0, 0, 1.5), (0, 0, -1.5), (-1.1, 0, 0), (0, .9, 0), (2, 3, -1.), (-.5, -.2, -.1)]


def cgsum(kind, q, d):
    """the documented sums over coupling coefficients"""
    L = len(q)-1
    y = o.inner(L, [[1., *d]]) if kind == 'inner' else o.inner(L, [[1., *d]]).conj() if kind == 'outer' else o.outer(2*L, [[1., *d]])
    c = L if kind != 'in2out' else 2*L
    out = np.zeros((L+1, 2*L+1), complex)
    f = math.factorial

    def C(*a):
        sg, sq = o.cg_exact(*a)
        return sg*math.sqrt(sq)
    for J in range(L+1):
        for M in range(-J, J+1):
            for l in (range(J+1) if kind == 'inner' else range(J, L+1) if kind == 'outer' else range(L+1)):
                if kind == 'inner':
                    k = J-l
                    fac = 4*math.pi*Fraction(f(2*J+1), f(2*k+1)*f(2*l+1))
                elif kind == 'outer':
                    k = l-J
                    fac = 4*math.pi*Fraction(f(2*l), f(2*k+1)*f(2*J))
                else:
                    k = J+l
                    fac = 4*math.pi*Fraction(f(2*k), f(2*l+1)*f(2*J))
                for m in range(-l, l+1):
                    if q[l, L+m] == 0:
                        continue
                    if kind == 'in2out':
                        if abs(M+m) <= k:
                            out[J, L+M] += math.sqrt(fac)*C(l, k, -m, M+m, J, M)*(-1)**m*y[k, c+M+m]*q[l, L+m]
                    elif abs(M-m) <= k:
                        out[J, L+M] += math.sqrt(fac)*C(k, l, M-m, m, J, M)*y[k, c+M-m]*q[l, L+m]
    return out


def one(rec, j1, j2, m1, m2, J, M, tol):
    sg, sq = o.cg_exact(j1, j2, m1, m2, J, M)
    w = sg*math.sqrt(sq)
    for n, f in FN.items():
        case = (j1, j2, m1, m2, J, M)
        v = rec.call(f, j1, j2, m1, m2, J, M, _case=case, _what=n)
        rec.close(v, w, 'Clebsch-Gordan coefficient, '+n, case, 1.0, tol)
        rec.trace()
    return w


def run(task, rec):
    tier, seed, mode, arg = task
    if mode == 'all':
        j1, j2 = arg
        for m1 in range(-j1-1, j1+2):
            for m2 in range(-j2-1, j2+2):
                for J in range(0, j1+j2+2):
                    for M in (range(-J, J+1) if j1+j2 <= 4 else sorted({m1+m2, -m1-m2, m1+m2+1, J, 0})):
                        rec.state((j1, j2, m1, m2, J, M))
                        w = one(rec, j1, j2, m1, m2, J, M, 1e-11)
                        if j1+j2 <= 5:
                            # numpy integers, as from a loop over np.arange
                            for n, f in FN.items():
                                case = (j1, j2, m1, m2, J, M, 'int64')
                                v = rec.call(f, *map(np.int64, case[:6]), _case=case, _what=n)
                                rec.close(v, w, 'Clebsch-Gordan coefficient, '+n, case, 1.0, 1e-11)
                                rec.trans()
        # orthonormality over the states of the coupled basis, M by M
        for f in FN.values():
            for M in range(-(j1+j2), j1+j2+1):
                ms = [(a, M-a) for a in range(-j1, j1+1) if abs(M-a) <= j2]
                Js = [J for J in range(abs(j1-j2), j1+j2+1) if abs(M) <= J]
                U = np.array([[f(j1, j2, a, b, J, M) for a, b in ms] for J in Js])
                rec.trans()
                rec.close(U @ U.T, np.eye(len(Js)), 'orthonormality', (j1, j2, M), 1.0, 1e-10)
    elif mode == 'on':
        j1, j2 = arg
        for m1 in range(-j1, j1+1):
            for m2 in range(-j2, j2+1):
                for J in range(max(abs(j1-j2), abs(m1+m2)), j1+j2+1):
                    rec.state((j1, j2, m1, m2, J, m1+m2))
                    rec.trans()
                    one(rec, j1, j2, m1, m2, J, m1+m2, 1e-10 if j1+j2 < 20 else 1e-7)
    elif mode == 'coef':
        L = 4 if tier == 'quick' else 7
        qs = [q for _, q in hbasis(L)]
        cases = [(n, i) for n in range(len(qs)) for i in range(len(DIR))]

        def judge(case, r):
            n, i = case
            rec.state((arg, n, i))
            rec.close(r, cgsum(arg, qs[n], DIR[i]), f'coefficients of the {arg} translation', [arg, n, DIR[i]], absscale(arg, qs[n], DIR[i]), 1e-10)
        for case in cases:
            r = rec.call(COEF[arg], qs[case[0]].copy(), np.array(DIR[case[1]], float), _case=[arg, *case], _what=f'{arg} translation')
            judge(case, r)
            rec.trace()
    elif mode == 'high':
        j1 = arg
        for j2 in sorted({1, j1//2, j1-1, j1}):
            for m1 in sorted({-j1, -j1//2, 0, 1, j1-1, j1}):
                for m2 in sorted({-j2, -1, 0, j2//2, j2}):
                    for J in sorted({abs(j1-j2), abs(j1-j2)+1, (j1+j2)//2, j1+j2-1, j1+j2}):
                        rec.state((j1, j2, m1, m2, J))
                        one(rec, j1, j2, m1, m2, J, m1+m2, 1e-8 if j1 < 14 else 1e-5)
                        rec.trans()
    elif mode == 'small':
        # a large one coupled to a small one, in either place, and two large ones to a small total
        big = arg
        for k in range(3):
            for mk in range(-k, k+1):
                for m in range(-big, big+1):
                    for J in range(max(big-k, abs(m+mk)), big+k+1):
                        rec.state((big, k, m, mk, J))
                        rec.trans(3)
                        one(rec, big, k, m, mk, J, m+mk, 1e-5)
                        one(rec, k, big, mk, m, J, m+mk, 1e-5)
                    J = big-k
                    if abs(mk-m) <= J:
                        one(rec, big, J, m, mk-m, k, mk, 1e-5)
    elif mode == 'ladder':
        # transitions of the lowering operator connect neighbouring states
        j1 = arg+1
        for j2 in range(0, 6):
            for J in range(abs(j1-j2), j1+j2+1):
                for M in range(-J+1, J+1):
                    for m1 in range(-j1, j1+1):
                        m2 = M-1-m1
                        if abs(m2) > j2:
                            continue
                        for n, f in FN.items():
                            lhs = math.sqrt((J+M)*(J-M+1))*f(j1, j2, m1, m2, J, M-1)
                            rhs = 0
                            if m1+1 <= j1 and abs(m2) <= j2:
                                rhs += math.sqrt((j1-m1)*(j1+m1+1))*f(j1, j2, m1+1, m2, J, M)
                            if m2+1 <= j2:
                                rhs += math.sqrt((j2-m2)*(j2+m2+1))*f(j1, j2, m1, m2+1, J, M)
                            rec.state(('ladder', j1, j2, J, M, m1))
                            rec.trans()
                            rec.close(lhs, rhs, 'ladder relation, '+n, (j1, j2, J, M, m1), 10.0, 1e-10)
