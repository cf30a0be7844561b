"""Signals at an angle and changes of the degree of moments."""
import itertools
import numpy as np
from mc import oracle as o
from mc.alph import labs
from mc.engine import explore, bfs, canon
from mc.props.p08 import LARGE
from mc.props.p09 import dense, embed
import newt.multipoleLib as mp

PI = np.pi
ANG = [('grid', np.linspace(-7, 7, 23)), ('one', np.array([.4])), ('int', np.array([0, 1, -2, 3])), ('2d', np.array([[0., .3], [2., -1.]])),
       ('f32-ish', np.array([PI, 2*PI, -PI/2])), ('many', np.arange(1000)*.37), ('very many', np.arange(20000)*.0137-50), ('scalar', .7), ('zero', 0.0), ('neg', -2.3), ('np', np.float64(1.1)),
       ('scalar int', 2), ('0d', np.array(.9)), ('empty', np.zeros(0))]


def series(tc, ts, ang, sign):
    """sum over k of the real parts of tc_k, ts_k as Fourier components: with
    tc = t_k + t_-k and ts = t_k - t_-k (half weight at k = 0)"""
    ang = np.asarray(ang, float)
    out = np.zeros(ang.shape)
    for k in range(len(tc)):
        a, b = complex(tc[k]), complex(ts[k])
        if k == 0:
            # both t_0 count once: t_0 = tc_0/2, ts_0 = 0 for a consistent pair
            out = out+a.real/2+b.imag/2
        else:
            # sum of t_k e^{-ik phi} + t_-k e^{ik phi} for hermitian t
            c, s = np.cos(k*ang), np.sin(k*ang)*sign
            out = out+a.real*c+a.imag*s+b.imag*s+b.real*c
    return out


def tasks(tier, seed):
    t = [(tier, seed, 'basis', L) for L in (list(range(0, 8))+[11, 16, 25] if tier == 'quick' else list(range(0, 26))+[33, 40])]
    t += [(tier, seed, 'dense', L) for L in (0, 1, 2, 5, 10, 20, 31)]+[(tier, seed, 'embhigh', 0)]
    t += [(tier, seed, 'large', L) for L in (0, 1, 4, 11, 25)]
    t += [(tier, seed, 'lm', 0), (tier, seed, 'embed', 12 if tier == 'quick' else 24), (tier, seed, 'embseq', 0), (tier, seed, 'one', 0), (tier, seed, 'numbers', 0)]
    t += [(tier, seed, 'words', k) for k in (1, 2, 3)]
    return t


def call(rec, tc, ts, ang, outer, case):
    if outer is None:
        r = rec.call(mp.torques_at_angle, tc, ts, ang, _case=case)
    else:
        r = rec.call(mp.torques_at_angle, tc, ts, ang, outer=outer, _case=case)
    return np.broadcast_to(r, np.shape(ang)) if len(tc) == 1 and np.shape(r) == () else r


def run(task, rec):
    tier, seed, mode, arg = task
    if mode == 'basis':
        L = arg
        comp = []
        for k in range(L+1) if L < 8 or tier == 'thorough' else sorted({1, L//2, L-1, L}):
            for which in ('c', 's'):
                for ph in (1, 1j, -1, 2-3j):
                    tc, ts = np.zeros(L+1, complex), np.zeros(L+1, complex)
                    (tc if which == 'c' else ts)[k] = ph
                    comp.append(((which, k, ph), (tc, ts)))

        def r(c):
            tc, ts = c['comp'].v
            return call(rec, tc, ts, c['ang'].v, c['outer'], (L, str(c)))

        def judge(c, res, case):
            tc, ts = c['comp'].v
            w = series(tc, ts, c['ang'].v, -1 if c['outer'] else 1)
            rec.close(res, w, 'signal at an angle', case, 4, 1e-10)
        explore(rec, f'signal L={L}', dict(comp=labs(comp), ang=labs(ANG), outer=[None, False, True]), r, judge, order=seed)
    elif mode == 'dense':
        L = arg
        for k in range(4):
            g = dense('inner', L, k)*dense('outer', L, 2*k+1)
            nm = g.sum(0)
            tc, ts = nm[L:]+nm[L::-1], nm[L:]-nm[L::-1]
            for form in (0, 1):
                a, b = (tc, ts) if not form else (list(tc), list(ts))
                for lab, ang in ANG:
                    for outer in (None, True, False):
                        case = (L, k, form, lab, outer)
                        s = call(rec, a, b, ang, outer, case)
                        rec.state(case)
                        rec.trace()
                        rec.trans()
                        rec.close(s, series(tc, ts, ang, -1 if outer else 1), 'signal at an angle', case, np.abs(nm).sum()*4, 1e-10)
    elif mode == 'words':
        # every row of up to six angles over three values: sweeps that dwell, return, repeat or jump
        L = arg
        nm = (dense('inner', L, 1)*dense('outer', L, 4)).sum(0)
        tc, ts = nm[L:]+nm[L::-1], nm[L:]-nm[L::-1]
        for n in range(1, 7):
            for w in itertools.product((0., .5, 1.) if L % 2 else (-.4, .3, 1.), repeat=n):
                for outer in (False, True):
                    ang = np.array(w)
                    case = ('words', L, w, outer)
                    s = call(rec, tc, ts, ang, outer, case)
                    rec.state(case)
                    rec.trace()
                    rec.trans()
                    rec.close(s, series(tc, ts, ang, -1 if outer else 1), 'signal at an angle', case, np.abs(nm).sum()*4, 1e-10)
    elif mode == 'one':
        # one array for both components, and for components and angles
        for L in (0, 1, 3, 6):
            for kind in (complex, float):
                t = np.array([.3-.2j, 1.+.5j, -.7j, .4, 2., -1.+1j, .1j])[:L+1]
                t = t if kind is complex else t.real.copy()
                keep = t.copy()
                for lab, ang in ANG+([('components', t)] if kind is float else []):
                    for outer in (None, True, False):
                        case = ('one array', L, kind.__name__, lab, outer)
                        s = call(rec, t, t, ang, outer, case)
                        rec.state(case)
                        rec.trace()
                        rec.close(s, series(keep, keep, keep if lab == 'components' else ang, -1 if outer else 1), 'signal at an angle', case, 30, 1e-10)
                        rec.check(np.array_equal(t, keep), 'components modified', case)
    elif mode == 'numbers':
        # layouts of angles and components, strengths of the signal and of its parts
        for L in (0, 1, 2, 5, 9):
            g = dense('inner', L, 1)*dense('outer', L, 4)
            nm = g.sum(0)
            tc0, ts0 = nm[L:]+nm[L::-1], nm[L:]-nm[L::-1]
            base = np.linspace(-6.5, 6.5, 24).reshape(4, 6)
            ro = base[0].copy()
            ro.flags.writeable = False
            angs = {'strided': base.ravel()[::3], 'backwards': base[1][::-1], 'fortran': np.asfortranarray(base), 'transposed': base.T, 'column': base[:, 2], 'read only': ro,
                    'f32': np.float32([.25, -1.5, 3.]), 'tiny': np.array([1e-9, -1e-12, 0, 1e-300]), 'small': np.array([1e-4, -2e-3]), '3d': base.reshape(2, 3, 4), 'one by one': np.array([[.3]]),
                    'quarters': PI/4*np.arange(-9, 10), 'thirds': PI/3*np.arange(-7, 8), 'near quarters': PI/2*np.arange(-4, 5)+1e-6, 'constant': np.full(5, .7), 'ints': np.arange(-20, 20, 7),
                    'equal ends': np.array([.3, 1., .3]), 'symmetric': np.array([-.5, 0, .5]), 'unsorted': np.array([2., -1, 5, .3, -4]), 'float32 scalar': np.float32(.5)}
            for lab, ang in angs.items():
                for outer in (None, True, False):
                    for cl, f in (('plain', lambda x: x), ('strided', lambda x: np.repeat(x, 2)[::2]), ('read only', lambda x: np.frombuffer(x.tobytes(), complex)), ('tiny', lambda x: x*1e-20),
                                  ('huge', lambda x: x*1e15), ('top only', lambda x: x*(np.arange(len(x)) == len(x)-1)), ('without top', lambda x: x*(np.arange(len(x)) < len(x)-1)),
                                  ('odd', lambda x: x*(np.arange(len(x)) % 2)), ('even', lambda x: x*((1+np.arange(len(x))) % 2)), ('falling', lambda x: x*1e-4**np.arange(len(x))),
                                  ('rising', lambda x: x*1e4**np.arange(len(x))), ('complex64', lambda x: x.astype(np.complex64))):
                        tc, ts = f(tc0), f(ts0)
                        case = ('numbers', L, lab, outer, cl)
                        s = call(rec, tc, ts, ang, outer, case)
                        rec.state(case)
                        rec.trace()
                        tol = 1e-10 if ('32' not in lab and cl != 'complex64') else 2e-6*(L+1)
                        rec.close(s, series(tc, ts, ang, -1 if outer else 1), 'signal at an angle', case, np.abs(tc).sum()+np.abs(ts).sum()+1e-290, tol)
            q, Q = dense('inner', L, 1), dense('outer', L, 4)
            w = -4j*PI*np.outer(1/(2*np.arange(L+1)+1), np.arange(-L, L+1))*q*Q
            c0, s0 = w.sum(0)[L:]+w.sum(0)[L::-1], w.sum(0)[L:]-w.sum(0)[L::-1]
            for c in (1e-12, 1e-5, .01, 1, 7.5, 300, 1e5, -2., 0, np.float64(.3), np.array(4.), np.int64(2)):
                case = ('strength', L, repr(c))
                _, tc, ts = rec.call(mp.torque_lm, q, Q, c, _case=case)
                rec.state(case)
                rec.close(tc, c0*float(c), 'components of the torque', case, np.abs(w).sum()*abs(float(c))+1e-290, 1e-11)
                rec.close(ts, s0*float(c), 'components of the torque', case, np.abs(w).sum()*abs(float(c))+1e-290, 1e-11)
            for k in (0, 1, L, L+1, 7):
                for z in (1e-200, 1e200, -1):
                    for ty in (np.int64, np.int32):
                        case = ('embed', L, k, z, ty.__name__)
                        rec.trans()
                        rec.close(rec.call(mp.embed_qlm, q*z, ty(k), _case=case), embed(q*z, k), 'change of degree', case, abs(z), 0)
    elif mode == 'large':
        # angles of many turns, alone and among small ones, also when there are many of them
        L = arg
        for k in range(2):
            g = dense('inner', L, k)*dense('outer', L, 2*k+1)
            nm = g.sum(0)
            tc, ts = nm[L:]+nm[L::-1], nm[L:]-nm[L::-1]
            for x in LARGE+[0.]:
                for lab, ang in (('alone', x), ('array', np.array([x])), ('among', np.array([.3, x, -.2, 0])), ('ramp', np.linspace(0, x, 7)), ('ramp to', x+np.linspace(-1, 1, 9)),
                                 ('dense ramp', np.linspace(0, x, 5000)), ('grid', x+np.arange(4.).reshape(2, 2)), ('falling', np.linspace(x, 0, 50)), ('steady', np.full(6, x)), ('bits', np.float32([x, -x, .3]).astype(float))):
                    for outer in (None, True):
                        case = ('large', L, k, x, lab, outer)
                        s = call(rec, tc, ts, ang, outer, case)
                        rec.state(case)
                        rec.trace()
                        rec.close(s, series(tc, ts, ang, -1 if outer else 1), 'signal at an angle', case, np.abs(nm).sum()*4, 1e-11+1e-15*(L+1)*(abs(x)+4))
    elif mode == 'lm':
        # spinning the inner body by phi multiplies its moments by e^{-im phi};
        # spinning the outer body back by phi is the same
        for L in range(0, 6):
            for k in range(3):
                q, Q = dense('inner', L, k), dense('outer', L, 2*k+1)
                ms = np.arange(-L, L+1)
                _, tc, ts = rec.call(mp.torque_lm, q, Q, 1.0, _case=(L, k))
                for lab, ang in ANG:
                    if np.ndim(ang) != 1:
                        continue
                    w = np.array([(-4j*PI*np.outer(1/(2*np.arange(L+1)+1), ms)*q*Q*np.exp(-1j*ms*a)).sum().real for a in ang])
                    case = (L, k, lab)
                    s = call(rec, tc, ts, ang, None, case)
                    s2 = call(rec, tc, ts, ang, True, case)
                    w2 = np.array([(-4j*PI*np.outer(1/(2*np.arange(L+1)+1), ms)*q*Q*np.exp(1j*ms*a)).sum().real for a in ang])
                    rec.state(('lm',)+case)
                    rec.trace(2)
                    rec.trans(2)
                    sc = np.abs(tc).sum()+np.abs(ts).sum()+1e-30
                    rec.close(s, w, 'signal of a spinning inner body', case, sc, 1e-10)
                    rec.close(s2, w2, 'signal of a spinning outer body', case, sc, 1e-10)
    elif mode == 'embed':
        n = arg
        for sweep in (0, 1):
            for a in range(n+1):
                q = dense('inner', a, sweep)
                lay = {'c': q, 'f': np.asfortranarray(q), 'view': np.repeat(np.repeat(q, 2, 0), 2, 1)[::2, ::2]}
                if sweep == 0:
                    lay['real'] = q.real.copy()
                    lay['int'] = np.arange(q.size).reshape(q.shape)*(np.abs(q) > 0)
                for b in (range(n+1) if not sweep else range(n, -1, -1)):
                    for lab, x in lay.items():
                        case = (a, b, lab)
                        r = rec.call(mp.embed_qlm, x, b, _case=case)
                        rec.state(case)
                        rec.trace()
                        rec.trans()
                        if not rec.close(r, embed(np.asarray(x, complex), b), 'change of degree', case, 1, 0):
                            continue
                        before = np.array(x)
                        r[...] = 7
                        rec.check(np.array_equal(before, x), 'change of degree returns a copy', case)
    elif mode == 'embhigh':
        for a in (0, 3, 16, 20, 31, 40):
            q = dense('inner', a, 1)
            for b in (0, 2, 15, 17, 21, 32, 41, 64):
                rec.state(('embed', a, b))
                rec.trace()
                rec.close(rec.call(mp.embed_qlm, q, b, _case=(a, b)), embed(q, b), 'change of degree', (a, b), 1, 0)
    elif mode == 'embseq':
        for L0 in (0, 1, 2, 4):
            q0 = dense('inner', L0, 1)

            def step(s, op, h):
                r = rec.call(mp.embed_qlm, s[0], op, _case=h)
                w = embed(s[1], op)
                rec.close(r, w, 'sequence of changes of degree', h, 1, 0)
                return r, w
            bfs(rec, f'embed {L0}', [(L0, (q0, q0.copy()))], lambda s: range(0, 6), step, lambda s: canon(s[0]), 4)
