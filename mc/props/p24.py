"""All routes from two bodies to the gravity between them agree: whether the
rigid motions act on point masses or on multipole moments, wherever on the way
one passes from the ones to the others, and whichever implementation does it."""
import importlib
import numpy as np
from mc import oracle as o, bodies as bo
from mc.alph import cloud
import newt.glib as glb
import newt.glibShapes as gsh
import newt.gShapeGL as ggl
import newt.pg2Multi as pgm
import newt.qlm as cf
import newt.rotations as rot
import newt.translations as trl
import newt.translationRecurs as trr
import newt.multipoleLib as mp
from newt.constants import BIG_G

PI = np.pi
LD = {'quick': 6, 'thorough': 9}
# motions of a body about the common origin; words of them are histories
MOVES = {'R': ('rot', (.7, 1.1, -.4)), 'Q': ('rot', (PI, PI/2, .3)), 'S': ('rot', (2.2, -2.7, 7.)), 'Z': ('rot', (-.6, 0., 0.)),
         'T': ('tra', (.1, -.15, .2)), 'U': ('tra', (0., 0., -.2)), 'V': ('tra', (-.2, 0., 0.)), 'O': ('tra', (0., 0., 0.))}
FAR = {'gen': (5., -6., 4.), 'z': (0., 0., 8.), '-z': (0., 0., -8.), 'x': (9., 0, 0), '-y': (0, -8.5, 0)}
IMPL = [('sums', trl), ('recursive', trr)]
OFFSETS = [(0., 0., 0.), (.3, -.2, .1), (0, 0, -.4)]
ANGLES = np.array([0, .4, PI/2, 2.5, -1.])


def body(name, L):
    """(reference masses, point masses as the toolkit makes them or None,
    moments from the closed form or None)"""
    pts = dict(cloud=lambda: cloud(5, .5, 3),
               mixed=lambda: np.array([[1., .4, .3, -.2], [-2., -.1, .2, .5], [.5, 0, 0, 0], [3., 0, 0, -.4]]),
               int=lambda: np.array([[2, 1, 0, 0], [1, 0, -1, 0], [3, 0, 0, 1]]),
               bar=lambda: ggl.rectangle(1.5, .8, .3, .2, 4, 3, 2), ring=lambda: gsh.annulus(2., .3, .5, .2, 6, 2))
    if name in pts:
        p = pts[name]()
        return p, p, None
    K = L
    rule, fn, a = dict(annulus=(lambda: bo.annulus(K, .3, .2, .5, .4, .9), cf.annulus, (.3, .2, .5, .4, .9)),
                       cone=(lambda: bo.frustum(K, .6, .4, 0., -.5, PI, 0.), cf.cone, (.6, .4, -.5, PI)),
                       box=(lambda: bo.rot_z(bo.box(K, .4, .6, .3), .7), cf.rect_prism, (.3, .4, .6, .7)),
                       prism=(lambda: bo.tri_prism(K, .3, .6, -.2, .4), cf.tri_prism, (.3, .6, -.2, .4)),
                       hexagon=(lambda: bo.ngon(K, .3, .4, .3, 6), cf.ngon_prism, (.3, .4, .3, 6)),
                       pyramid=(lambda: bo.pyramid(K, .3, .4, .5), cf.pyramid, (.3, .4, .5)))[name]
    X, W = rule()
    return np.concatenate([(2.5*W/W.sum())[:, None], X], 1), None, lambda L: fn(L, 2.5, *a)


NAMES = ['cloud', 'mixed', 'int', 'bar', 'ring', 'annulus', 'cone', 'box', 'prism', 'hexagon', 'pyramid']


def true_move(p, mv):
    k, v = mv
    p = np.array(p, float)
    p[:, 1:] = p[:, 1:] @ o.euler_zyz(*v).T if k == 'rot' else p[:, 1:]+np.array(v)
    return p


def glb_move(rec, p, mv, case):
    k, v = mv
    if k == 'tra':
        return rec.call(glb.translate_point_array, p, np.array(v), _case=case)
    for ang, ax in ((v[2], 'z'), (v[1], 'y'), (v[0], 'z')):
        p = rec.call(glb.rotate_point_array, p, ang, np.array([0., 0, 1] if ax == 'z' else [0, 1., 0]), _case=case)
    return p


def in_moves(rec, q, mv, case):
    """every implementation of a motion of inner moments"""
    k, v = mv
    if k == 'rot':
        yield 'rotate', rec.call(rot.rotate_qlm, q, *v, _case=case)
        yield 'matrix', rec.call(rot.rotate_qlm_Ds, q, rec.call(rot.wignerDl, len(q)-1, *v, _case=case), _case=case)
    else:
        for n, mod in IMPL:
            yield n, rec.call(mod.translate_qlm, q, np.array(v), _case=case)


def out_moves(rec, Q, mv, case):
    k, v = mv
    if k == 'rot':
        yield 'rotate', rec.call(rot.rotate_qlm, Q, -v[0], v[1], -v[2], _case=case)
    else:
        for n, mod in IMPL:
            yield n, rec.call(mod.translate_Qlmb, Q, np.array(v), _case=case)


def sensors(rec, name, words, L):
    """all states of a sensor: word -> (true masses, toolkit masses, [(route, inner moments)])"""
    true, pts, closed = body(name, L)
    st = {'': (true, pts, [('closed form', rec.call(closed, L, _case=[name, L]))] if closed else [('points', rec.call(pgm.qmoments, L, pts, _case=[name, L]))])}
    for w in words:
        for i in range(1, len(w)+1):
            v = w[:i]
            if v in st:
                continue
            t0, p0, qs = st[v[:-1]]
            mv = MOVES[v[-1]]
            t1 = true_move(t0, mv)
            p1 = None if p0 is None else glb_move(rec, p0, mv, [name, v])
            new = []
            for route, q in qs:
                for n, q1 in in_moves(rec, q, mv, [name, v, route]):
                    new.append((route+'>'+v[-1]+n, q1))
            if p1 is not None:
                rec.close(p1, t1, 'point masses after a history of motions', [name, v], 2., 1e-12)
                new.append((f'points after {v}', rec.call(pgm.qmoments, L, p1, _case=[name, v])))
            want = o.inner(L, t1)
            r = np.sqrt((t1[:, 1:]**2).sum(1))
            sc = np.array([[(np.abs(t1[:, 0])*np.maximum(r, .3)**l).sum()] for l in range(L+1)])
            for route, q in new:
                rec.trans()
                rec.state(('in', name, v, route))
                rec.close(q, want, 'inner moments depend on the route', [name, v, route], sc, 1e-8)
            # routes meet here: one of each kind goes on
            keep = new[:2]+new[-1:]
            st[v] = (t1, p1, keep)
    return st


def tail(rho, L):
    """bound of the rest of the expansion of the force beyond degree L"""
    n = np.arange(L, L+200)
    return float(((n+1.)*(n+2)*rho**n).sum())


def pair(a, b):
    """force on a and torque about the origin"""
    d = b[None, :, 1:]-a[:, None, 1:]
    r2 = (d*d).sum(-1)
    f = (a[:, 0][:, None]*b[None, :, 0]/r2**1.5)[:, :, None]*d
    F = f.sum(1)
    return F.sum(0), np.cross(a[:, 1:], F).sum(0)


def gravity(rec, L, sens, src, case, full):
    """judge torque and force of one pair of states.
    sens: (true, pts, [(route, q)]); src: (true, pts, [(route, Q, reach)], dist)"""
    ta, pa, qs = sens
    tb, pb, Qs = src
    G = BIG_G
    A = np.sqrt((ta[:, 1:]**2).sum(1)).max()
    B = np.sqrt((tb[:, 1:]**2).sum(1)).min()
    M = np.abs(ta[:, 0]).sum()*np.abs(tb[:, 0]).sum()
    for off in OFFSETS if full else OFFSETS[:2]:
        a = true_move(ta, ('tra', off))
        F, T = pair(a, tb)
        if pa is not None and pb is not None:
            g = rec.call(glb.translate_point_array, pa, np.array(off), _case=case)
            r = rec.call(glb.point_matrix_gravity, g, pb, _case=case)
            rec.close(np.array(r), G*np.array([F, T]), 'force and torque of point masses', [case, off], G*M/B**2, 1e-11)
            rec.trans()
        for route, q in qs:
            for rt, Q, rho in Qs:
                x = max(rho*(1 if off == (0, 0, 0) else 1), (A+np.linalg.norm(off))/B, rho+np.linalg.norm(off)/B)
                tol = 3*tail(x, L)
                f = rec.call(mp.multipole_force, L, q, Q, *off, _case=case)
                rec.close(np.real(f), G*F, 'force from moments', [case, off, route, rt], G*M/B**2, tol+1e-9)
                rec.trace()
                if off == OFFSETS[0]:
                    n, c, s = rec.call(mp.torque_lm, q, Q, _case=case)
                    sig = rec.call(mp.torques_at_angle, c, s, ANGLES, _case=case)
                    W = [pair(true_move(ta, ('rot', (t, 0, 0))), tb)[1][2] for t in ANGLES]
                    rec.close(sig, G*np.array(W), 'torque from moments', [case, route, rt], G*M/B**2, tol+1e-9)
                    rec.trace()


def source(rec, name, L, loc, far, after, impls):
    """all states of a source: local word, far displacement, word of outer motions"""
    true, pts, inner = sensors(rec, name, [loc], L)[loc]
    d = np.array(FAR[far])
    lr = np.sqrt((true[:, 1:]**2).sum(1)).max()
    t = true_move(true, ('tra', d))
    p = None if pts is None else glb_move(rec, pts, ('tra', d), [name, far])
    case = [name, loc, far, after]
    reach = lr
    Qs = []
    for route, q in inner[-1:] if len(after) else inner:
        for n, mod in impls:
            Qs.append((f'{route}>{n}', rec.call(mod.translate_q2Q, q, d, _case=case), lr))
    if p is not None:
        Qs.append((f'points {loc} {far}', rec.call(pgm.Qmomentsb, L, p, _case=case), 0.))
    for k in after:
        mv = MOVES[k]
        t = true_move(t, mv)
        p = None if p is None else glb_move(rec, p, mv, case)
        new = []
        for route, Q, e in Qs:
            e = e+(np.linalg.norm(mv[1]) if mv[0] == 'tra' else 0.)
            for n, Q1 in out_moves(rec, Q, mv, case):
                new.append((f'{route}>{k}{n}', Q1, e))
        if p is not None:
            new.append((f'points {case}', rec.call(pgm.Qmomentsb, L, p, _case=case), 0.))
        Qs = new
    if p is not None:
        rec.close(p, t, 'point masses after a history of motions', case, 20., 1e-12)
    for route, Q, e in Qs:
        rec.state(('out', name, route))
    return t, p, Qs, np.linalg.norm(d)


def words(tier):
    ks = 'RQTU' if tier == 'quick' else 'RQSZTUVO'
    w = ['']+list(MOVES)
    w += [a+b for a in ks for b in ks]
    if tier == 'thorough':
        w += [a+b+c for a in 'RQTV' for b in 'RQTV' for c in 'RQTV']
    return w


# the steps of the routes, each explored on its own by the check of its property
STEPS = ['P01', 'P03', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P13']


def tasks(tier, seed):
    t = [(tier, seed, 'sensor', n, f) for n in NAMES for f in (['gen'] if tier == 'quick' else ['gen', '-z'])]
    t += [(tier, seed, 'source', n, f) for n in NAMES for f in FAR
          if tier == 'thorough' or n in ('cloud', 'annulus') or f in ('gen', 'z')]
    t += [(tier, seed, 'spin', n, f) for n in NAMES for f in FAR]
    s = []
    for p in STEPS:
        m = importlib.import_module('mc.props.'+p.lower())
        # the deeper bounds of the steps belong to their own checks
        s += [('quick', seed, 'step', p, k) for k in m.tasks('quick', seed) if k[2] != 'every']
    return s+t


def run(task, rec):
    tier, seed, mode, name, far = task
    if mode == 'step':
        return importlib.import_module('mc.props.'+name.lower()).run(far, rec)
    L = LD[tier]
    if mode == 'sensor':
        st = sensors(rec, name, words(tier), L)
        tb, pb, Qs, D = source(rec, 'mixed', L, '', far, '', IMPL[1:])
        for w, (ta, pa, qs) in st.items():
            A = np.sqrt((ta[:, 1:]**2).sum(1)).max()
            B = np.sqrt((tb[:, 1:]**2).sum(1)).min()
            gravity(rec, L, (ta, pa, qs), (tb, pb, [(r, Q, (A+e)/min(D, B)) for r, Q, e in Qs]), ['sensor', name, w, far], len(w) < 2)
            rec.sample(body=name, history=w, routes=[r for r, q in qs])
    elif mode == 'source':
        sens = sensors(rec, 'cloud', ['R'], L)['R']
        A = np.sqrt((sens[0][:, 1:]**2).sum(1)).max()
        aft = ['', 'R', 'Q', 'T', 'U', 'RT', 'TQ'] if tier == 'quick' else ['']+list(MOVES)+[a+b for a in 'RQTV' for b in 'RQTV']
        for loc in ('', 'T', 'R', 'QU') if tier == 'quick' else ('', 'T', 'R', 'QU', 'ZT', 'SV', 'O'):
            for after in aft:
                tb, pb, Qs, D = source(rec, name, L, loc, far, after, IMPL)
                B = np.sqrt((tb[:, 1:]**2).sum(1)).min()
                gravity(rec, L, (sens[0], sens[1], sens[2][-1:]), (tb, pb, [(r, Q, (A+e)/min(D, B)) for r, Q, e in Qs]),
                        ['source', name, loc, far, after], False)
    else:
        # torque() does the motion itself; the moving body spins about its own axis
        ta, pa, qs = sensors(rec, name, [''], L)['']
        G = BIG_G
        for sname in ('cloud', 'prism'):
            if sname == name:
                continue
            tb0, pb0, Q0 = sensors(rec, sname, [''], L)['']
            for e in [(0., 0., 0.)]+[v for k, v in MOVES.values() if k == 'rot']:
                for route, q in qs:
                    case = ['spin', name, sname, far, e]
                    n, c, s = rec.call(mp.torque, q, Q0[0][1], e, FAR[far], 'inner-outer', _case=case)
                    sig = rec.call(mp.torques_at_angle, c, s, ANGLES, _case=case)
                    W = []
                    for t in ANGLES:
                        tb = tb0
                        for mv in (('rot', (t, 0, 0)), ('rot', e), ('tra', FAR[far])):
                            tb = true_move(tb, mv)
                        W.append(pair(ta, tb)[1][2])
                    A = np.sqrt((ta[:, 1:]**2).sum(1)).max()+np.sqrt((tb0[:, 1:]**2).sum(1)).max()
                    M = np.abs(ta[:, 0]).sum()*np.abs(tb[:, 0]).sum()
                    D = np.linalg.norm(FAR[far])
                    rec.close(sig, G*np.array(W), 'torque of a spun, oriented and displaced body', case, G*M/D**2, 3*tail(A/D, L)+1e-9)
                    rec.state(case)
                    rec.trace()
