"""Rigid motions of point-mass arrays and cylindrical coordinates."""
import numpy as np
from mc import oracle as o
from mc.alph import point_sets, structured, lookalikes, octa, labs, Lab, cloud, ANGLES
from mc.engine import explore, bfs, canon
import newt.glib as glb
import newt.glibShapes as gsh

PI = np.pi

VECS = [('0', (0., 0, 0)), ('x', (1.5, 0, 0)), ('-x', (-1.5, 0, 0)), ('y', (0, 0.7, 0)), ('-y', (0, -.7, 0)),
        ('z', (0, 0, 2.)), ('-z', (0, 0, -2.)), ('gen', (.3, -1.2, 2.2)), ('int', (1, 2, -3)),
        ('yz', (0., 1.5, -.5)), ('xz', (-.5, 0., 2.)), ('xy', (.5, -.5, 0)), ('near x=0', (1e-7, .6, -1.)), ('near z=0', (.6, 1., -1e-7)),
        ('tiny', (1e-7, -2e-7, 3e-8)), ('huge', (1e6, -3e5, 2e6))]
AXES = [('x', (1., 0, 0)), ('y', (0, 1., 0)), ('z', (0, 0, 1.)), ('-z', (0, 0, -1.)), ('-y', (0, -2., 0)),
        ('xy', (1., 1., 0)), ('yz', (0., 1., -1.)), ('xz', (-1., 0., 3.)), ('gen', (.3, -1.2, 2.2)), ('int', (1, 2, -3)), ('long', (100., 20., -50)),
        ('short', (1e-6, 2e-6, -1e-6))]
KINDS = [('1', 1), ('np -2', np.int64(-2)), ('np .7', np.float64(.7)), ('0-d 2.6', np.array(2.6))]
FORMS = [Lab('array', lambda v: np.array(v)), Lab('list', lambda v: list(v)), Lab('tuple', lambda v: tuple(v))]
SIZES = [1, 2, 3, 4, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 10001, 65537]


def tasks(tier, seed):
    t = [('translate', k) for k in point_sets()]+[('rotate', k) for k in point_sets()]
    t += [('sizes', 0), ('range', 0), ('cyl', 0), ('nearby', 0), ('lookalikes', 0), ('lookalikes', 1)]+[('structured', k) for k in range(4)]+[('hist', k) for k in ('single', 'one', 'neg', 'int', 'cloud7', 'strided')]
    return [(tier, seed)+x for x in t]


def ftrans(a, v):
    b = np.array(a, dtype=float)
    b[..., 1:] += np.asarray(v, float)
    return b


def frot(a, ang, ax):
    b = np.array(a, dtype=float)
    b[..., 1:] = b[..., 1:] @ o.axis_angle(ax, ang).T
    return b


def ext(a):
    """size of every row, broadcastable against the positions"""
    a = np.asarray(a)
    return np.sqrt((a[..., 1:].astype(float)**2).sum(-1))[..., None]+1e-300


def judge(rec, a, got, want, what, case, scale):
    g = np.asarray(got)
    if not rec.check(isinstance(got, np.ndarray) and g.shape == want.shape, what+': shape', case, f'{g.shape}'):
        return
    rec.check(np.array_equal(g[..., 0], np.asarray(a, float)[..., 0]), what+': masses', case, f'{g[..., 0]}')
    rec.close(g[..., 1:], want[..., 1:], what+': positions', case, scale, 1e-13)
    rec.check(not np.shares_memory(got, a), what+': result aliases its argument', case)


def run(task, rec):
    tier, seed, kind, arg = task
    ps = point_sets()
    if kind == 'translate':
        a = ps[arg]
        explore(rec, 'translate '+arg, dict(vec=labs(VECS), form=FORMS),
                lambda c: rec.call(glb.translate_point_array, a, c['form'].v(c['vec'].v), _case=[arg, str(c)]),
                lambda c, r, case: judge(rec, a, r, ftrans(a, c['vec'].v), 'translation', [arg, case],
                                         ext(a)+np.linalg.norm(c['vec'].v)), order=seed)
    elif kind == 'rotate':
        a = ps[arg]
        explore(rec, 'rotate '+arg, dict(angle=labs(ANGLES+KINDS), axis=labs(AXES), form=FORMS),
                lambda c: rec.call(glb.rotate_point_array, a, c['angle'].v, c['form'].v(c['axis'].v), _case=[arg, str(c)]),
                lambda c, r, case: judge(rec, a, r, frot(a, c['angle'].v, c['axis'].v), 'rotation', [arg, case],
                                         ext(a)*10), order=seed)
    elif kind == 'sizes':
        for n in (SIZES if tier == 'quick' else sorted(set(SIZES+list(range(1, 200))+[10000, 65537]))):
            a = cloud(n, 1.0, n)
            judge(rec, a, rec.call(glb.translate_point_array, a, np.array([.1, -2, 3.]), _case=n),
                  ftrans(a, (.1, -2, 3.)), 'translation', f'{n} points', 4)
            judge(rec, a, rec.call(glb.rotate_point_array, a, 2.2, np.array([.1, -2, 3.]), _case=n),
                  frot(a, 2.2, (.1, -2, 3.)), 'rotation', f'{n} points', 10)
            rec.state(('sizes', n))
            rec.trace(2)
    elif kind == 'range':
        # masses, distances and displacements of every size in one array
        for s in (1e-12, 1e-7, 1e-4, 1.0, 1e4, 1e9):
            for m in (1e-30, 1e-9, 1.0, 1e24):
                a = np.concatenate([cloud(3, s, 1)*[m, 1, 1, 1], cloud(3, 1.0, 2), cloud(2, 1e3, 4)*[1/m, 1, 1, 1]])
                for v in ((0, 0, 0), (s, -s, 2*s), (1., 2, 3), (1e-3*s, 0, 0), (0, 0, 1e5)):
                    judge(rec, a, rec.call(glb.translate_point_array, a, np.array(v), _case=(s, m, v)),
                          ftrans(a, v), 'translation', ('range', s, m, v), ext(a)+np.linalg.norm(v))
                    rec.state(('range', s, m, v))
                    rec.trace()
                for th in (0.0, 1e-9, -1e-6, 1e-4, .3, np.pi, 1e3, 1e6):
                    for ax in ((0, 0, 1.), (s, -s, 2*s), (1., 2e-8, 3e-5), (1e-150, 0, 0), (1e100, 1e100, 0)):
                        # the angle itself is only known to its rounding
                        judge(rec, a, rec.call(glb.rotate_point_array, a, th, np.array(ax), _case=(s, m, th, ax)),
                              frot(a, th, ax), 'rotation', ('range', s, m, th, ax), 10*ext(a)*max(1, abs(th)/100))
                        rec.state(('range', s, m, th, ax))
                        rec.trace()
    elif kind == 'nearby':
        # neighbouring arguments must not be confused with each other
        a = cloud(5)
        for d in (1e-2, 1e-4, 1e-6, 1e-8):
            for th in (0.0, 0.7, np.pi/2, np.pi, 2*np.pi):
                for s in (-d, 0.0, d):
                    for ax in ((0, 0, 1.), (d, 0, 1.), (1., 2., d)):
                        judge(rec, a, rec.call(glb.rotate_point_array, a, th+s, np.array(ax), _case=(th, s, ax)),
                              frot(a, th+s, ax), 'rotation', ('nearby', th, s, ax), 10)
                        rec.state(('near', d, th, s, ax))
                        rec.trace()
                    v = np.array([th+s, -s, d])
                    judge(rec, a, rec.call(glb.translate_point_array, a, v, _case=v),
                          ftrans(a, v), 'translation', ('nearby', v), 10)
                    rec.trans()
    elif kind == 'lookalikes':
        # arrays, axes and displacements that have much in common, one after the other
        la = lookalikes(*((3, 0), (2, 5))[arg])
        a0 = next(iter(la.values()))
        v0 = np.array([.5, -1.25, 2.])
        vecs = [v0[list(p)]*s for p, s in octa()]
        calls = [(la[x], v0, .75, x) for x in la]+[(a0, v, .75, i) for i, v in enumerate(vecs)]+[(a0, v0, t, t) for t in (.75, -.75, 2*np.pi-.75, np.pi-.75, np.pi+.75, .75+2*np.pi)]
        for back in (False, True):
            for c in calls:
                for a, v, th, x in ([calls[0]] if back else [])+[c]:
                    case = ('lookalikes', arg, x, str(v), th, back)
                    judge(rec, a, rec.call(glb.translate_point_array, a, v.copy(), _case=case), ftrans(a, v), 'translation', case, ext(a)+3)
                    judge(rec, a, rec.call(glb.rotate_point_array, a, th, v.copy(), _case=case), frot(a, th, v), 'rotation', case, 10*ext(a))
                    rec.trans(2)
                rec.state(('lookalikes', arg, c[3], str(c[1]), c[2]))
                rec.trace()
    elif kind == 'structured':
        # bodies with symmetries, also very small and very large ones
        for x, b in list(structured().items())[arg::4]:
            for sc in (1., 1e-9, 1e5):
                a = b if sc == 1. else b*[1, sc, sc, sc]
                for n, v in VECS:
                    case = (x, sc, n)
                    judge(rec, a, rec.call(glb.translate_point_array, a, np.array(v)*sc, _case=case), ftrans(a, np.array(v)*sc), 'translation', case, ext(a)+np.linalg.norm(v)*sc)
                    rec.state(case)
                    rec.trace()
                for n, v in AXES:
                    for th in (.3, -PI/2, PI, 4.):
                        case = (x, sc, n, th)
                        judge(rec, a, rec.call(glb.rotate_point_array, a, th, np.array(v), _case=case), frot(a, th, v), 'rotation', case, 10*ext(a))
                        rec.state(case)
                        rec.trace()
    elif kind == 'cyl':
        vals = [-2.0, -0.3, -0.0, 0.0, 1e-9, 0.8, 3]
        for z in vals:
            P = np.array([[x, y, z] for x in vals for y in vals], dtype=float)
            c = rec.call(gsh.cart_2_cyl, P, _case=z)
            w = np.stack([np.hypot(P[:, 0], P[:, 1]), np.arctan2(P[:, 1], P[:, 0]) % (2*np.pi), P[:, 2]], 1)
            rec.close(c[:, [0, 2]], w[:, [0, 2]], 'cylindrical coordinates', z, 3, 1e-13)
            rec.close(c[:, :1]*np.exp(1j*c[:, 1:2]), w[:, :1]*np.exp(1j*w[:, 1:2]), 'azimuth', z, 3, 1e-13)
            rec.check(np.all((c[:, 1] >= 0) & (c[:, 1] <= 2*np.pi)), 'azimuth range', z)
            back = rec.call(gsh.cyl_2_cart, c, _case=z)
            rec.close(back, P, 'cylindrical round trip', z, 5, 1e-13)
            for i in range(len(P)):
                rec.state(('cyl', P[i].tobytes()))
            rec.trans(len(P))
            rec.trace(len(P))
        for n in (1, 64, 65, 257, 1025):
            C = np.abs(cloud(n)[:, 1:])*3
            X = rec.call(gsh.cyl_2_cart, C, _case=n)
            rec.close(X, np.stack([C[:, 0]*np.cos(C[:, 1]), C[:, 0]*np.sin(C[:, 1]), C[:, 2]], 1), 'cyl_2_cart', n, 3, 1e-13)
    elif kind == 'hist':
        a0 = ps[arg]
        O = {'T1': ('t', (.5, 0, 0)), 'T1-': ('t', (-.5, 0, 0)), 'T2': ('t', (.3, -1.2, 2.2)),
             'T3': ('t', (0, 0, -1.)), 'Rz90': ('r', np.pi/2, (0, 0, 1.)), 'Rx180': ('r', np.pi, (1., 0, 0)),
             'Ry-': ('r', -np.pi/2, (0, 2., 0)), 'Rg': ('r', 1.1, (.3, -1.2, 2.2)), 'Rg-': ('r', -1.1, (.3, -1.2, 2.2)),
             'R111': ('r', 2*np.pi/3, (1, 1, 1))}

        def step(s, op, h):
            got, want = s
            p = O[op]
            if p[0] == 't':
                g = rec.call(glb.translate_point_array, got, np.array(p[1]), _case=h)
                w = ftrans(want, p[1])
            else:
                g = rec.call(glb.rotate_point_array, got, p[1], np.array(p[2]), _case=h)
                w = frot(want, p[1], p[2])
            judge(rec, a0, g, w, 'history of rigid motions', [arg, h], 30)
            if np.ndim(w) == 2 and len(w) > 1:
                d0 = np.linalg.norm(want[0, 1:]-want[-1, 1:])
                rec.close(np.linalg.norm(g[0, 1:]-g[-1, 1:]), d0, 'distances preserved', [arg, h], 10, 1e-12)
            return (g, w)
        bfs(rec, 'hist '+arg, [('start', (a0, np.array(a0, float)))], lambda s: list(O), step,
            lambda s: canon(s[0], 7), 4 if tier == 'quick' else 6, maxstates=10**5)
