"""Results depend only on the arguments: histories of calls.

For every public function: every ordered pair of calls whose arguments differ
in one place (or are refused), with new and with reused argument objects; for
every ordered pair of functions, one call of each; and every call suspended at
every one of its lines while another thread completes another call.  The
results are compared with those of a process in which nothing else was called.
"""
import os
import pickle
import sys
import tempfile
import threading
import warnings
import numpy as np
from mc.engine import short, _scribble, Hang
from mc.alph import cloud
from mc import oracle as o
import newt.glib as glib
import newt.glibShapes as gs
import newt.gShapeGL as gl
import newt.pg2Multi as pg
import newt.qlm as qlm
import newt.qlmACH as ach
import newt.qlmNum as qn
import newt.bigQlm as bq
import newt.bigQlmNum as bqn
import newt.clebschGordan as cg
import newt.multipoleLib as mp
import newt.rotations as rot
import newt.translations as tr
import newt.translationRecurs as rec_
import newt.read_multiFor as rm
import newt.genCAD as gc
import newt.shapes as sh

PI = np.pi
ASSUME = ['np.random and the file system are inputs of the functions that use them (random shell, readers)',
          'a call is suspended at line granularity, once per execution; the other thread runs to completion meanwhile',
          'functions that are not referenced by the package or its documentation (transl_yuk_*, display_points, qlm.cyl_mom) are left out']


class Bad(tuple):
    """argument list that is refused"""


def M(L, seed, n=6, outer=False):
    p = cloud(n, 1., seed, False)
    if outer:
        p[:, 1:] += np.sign(p[:, 1:])*.8
    return (o.outer if outer else o.inner)(L, p)


CAT = {}


def E(name, fn, bad=None, /, slow=False, cad=False, post=None, **args):
    """args: name -> list of values, the first one is the base"""
    base = tuple(v[0] for v in args.values())
    cases = [base]
    for k, v in enumerate(args.values()):
        alts = list(v[1:])
        if isinstance(v[0], float):
            alts.append(v[0]*(1+3e-5)+(v[0] == 0)*1e-5)
        for a in alts:
            cases.append(base[:k]+(a,)+base[k+1:])
    cases.append(tuple(v[-1] for v in args.values()))
    for b in bad or []:
        cases.append(Bad(b))
    near = []
    for j, v in enumerate(base):
        for d in (3e-5, 3e-8, -2e-10):
            if isinstance(v, float):
                near.append(base[:j]+(v*(1+d)+(v == 0)*d,)+base[j+1:])
            elif isinstance(v, np.ndarray) and v.dtype.kind in 'fc' or isinstance(v, list) and v and isinstance(v[0], float):
                w = np.array(v)
                # the entry in the middle of those that are not zero
                i = np.flatnonzero(w)
                w.flat[i[len(i)//2]] *= 1+d
                if w.dtype.kind == 'c':
                    w = near_real(w)
                near.append(base[:j]+(w if isinstance(v, np.ndarray) else w.tolist(),)+base[j+1:])
    base, look = alike(base)
    if slow or cad:
        look = []
    CAT[name] = dict(fn=fn, cases=cases+near+[base]*bool(look)+look, n=len(cases), look=len(cases)+len(near), slow=slow, cad=cad, post=post)


def alike(base):
    """argument lists that have much in common with the (rounded) base: the same
    values in other places or with other signs, the same sums, products and
    norms.  rounded to multiples of 1/64, so that sums agree to the last bit"""
    base = tuple(np.round(v*64)/64 if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' else v for v in base)
    out = []

    def put(j, w):
        out.append(base[:j]+(w,)+base[j+1:])
    fl = [j for j, v in enumerate(base) if isinstance(v, float)]
    ints = [j for j, v in enumerate(base) if isinstance(v, int) and not isinstance(v, bool)]
    for ix in (fl, ints):
        for n, i in enumerate(ix):
            for k in ix[n+1:]:
                c = list(base)
                c[i], c[k] = c[k], c[i]
                out.append(tuple(c))
                if ix is fl and max(map(abs, (base[i], base[k]))) < 1e3:
                    c = list(base)
                    c[i], c[k] = base[i]*2, base[k]/2
                    out.append(tuple(c))
                    c[i], c[k] = base[i]+.125, base[k]-.125
                    out.append(tuple(c))
    for j in fl:
        put(j, -base[j])
    for j, v in enumerate(base):
        if not isinstance(v, np.ndarray) or v.dtype.kind not in 'fc':
            continue
        if v.dtype.kind == 'c' and v.ndim == 2:
            L = len(v)-1
            q = near_real(v.copy())
            base = base[:j]+(q,)+base[j+1:]
            ls, ms = np.arange(L+1)[:, None], np.arange(-L, L+1)
            for w in (np.conj(q), -q, q*(-1.)**ms, q*(-1.)**ls, q*1j**ms, q*(-1j)**ms):
                put(j, w)
            for l in range(1, L+1):
                w = q.copy()
                w[l, L-l:L+l+1] = np.roll(w[l, L:L+l+1], 1)[np.abs(np.arange(-l, l+1))]
                w[:, L] = w[:, L].real
                put(j, near_real(w))
        elif v.ndim == 2 and v.shape[1] == 4:
            out += [base[:j]+(w,)+base[j+1:] for w in (v[::-1].copy(), np.roll(v, 1, 0), v*[-1, 1, 1, 1], v*[1, -1, -1, -1], v*[1, -1, 1, 1], v*[1, 1, 1, -1], v[:, [0, 2, 1, 3]],
                                                       v[:, [0, 2, 3, 1]], v*[1, -1, -1, 1], v[:-1], np.concatenate([v, v[-1:]]))]
            for c in range(4):
                w = v.copy()
                w[:, c] = np.roll(w[:, c], 1)
                put(j, w)
                w = v.copy()
                w[1:3, c] = w[2:0:-1, c]
                put(j, w)
                w = v.copy()
                w[1, c] += .125
                w[2, c] -= .125
                put(j, w)
        elif v.ndim == 1:
            for w in (v[::-1].copy(), np.roll(v, 1), -v, v*(-1.)**np.arange(len(v)), v+.125*(np.arange(len(v)) == 0)-.125*(np.arange(len(v)) == len(v)-1)):
                put(j, w)
        elif v.ndim == 2:
            for w in (v[::-1].copy(), np.roll(v, 1, 0), v[:, ::-1].copy(), -v, np.roll(v, 1, 1)):
                put(j, w)
    return base, out


def near_real(q):
    """moments of a real density: q(l,-m) = (-1)^m q(l,m)*"""
    L = len(q)-1
    q[:, :L] = (np.conj(q[:, L+1:])*(-1.)**np.arange(1, L+1))[:, ::-1]
    return q


c1, c2, c3, c4 = cloud(5), cloud(5, seed=31), cloud(7, seed=3), cloud(3, 1.3, seed=77)
c2[:, 1:] += 3
one, two = np.array([2., .3, -.4, .9]), np.array([2., .3, 1.4, .9])
E('glib.gmmr2_array', glib.gmmr2_array, mass1=[one+[0, 0, 4, 0], two+[0, 5, 0, 0]], mass2=[c1, c4, cloud(5, seed=8), one])
E('glib.yukawa_array', glib.yukawa_array, mass1=[one+[0, 0, 4, 0], two+[0, 5, 0, 0]], mass2=[c1, c4, cloud(5, seed=8), one], alpha=[1.3, .4], lmbd=[.7, 2.])
E('glib.point_matrix_gravity', glib.point_matrix_gravity, mass1=[c1, c4, cloud(5, seed=8), one], mass2=[c2, c2[::-1].copy(), c2[:3], two+[0, 4, 4, 4]])
E('glib.point_matrix_yukawa', glib.point_matrix_yukawa, mass1=[c1, c4, cloud(5, seed=8)], mass2=[c2, c2[::-1].copy(), c2[:3]], alpha=[1.3, .4], lmbd=[.7, 2.])
E('glib.translate_point_array', glib.translate_point_array, pointMass=[c1, cloud(5, seed=8), one, c3], transVec=[np.array([.3, -.2, 1.]), np.array([.3, -.2, .4]), [0, 0, 0], (1, 2, 3)])
E('glib.rotate_point_array', glib.rotate_point_array, pointMass=[c1, cloud(5, seed=8), one, c3], theta=[.7, -2.2], rotVec=[np.array([1., 2, -1]), np.array([1., 2, 1]), [0, 0, 1]])
E('glibShapes.cart_2_cyl', gs.cart_2_cyl, X=[c1[:, 1:].copy(), c2[:, 1:].copy(), c3[:, 1:].copy()])
E('glibShapes.cyl_2_cart', gs.cyl_2_cart, X=[np.abs(c1[:, 1:]), np.abs(c2[:, 1:]), np.abs(c3[:, 1:])])
E('glibShapes.sphere', gs.sphere, mass=[1.2, 3.], R=[1.5, 2.], N=[5, 4])
E('glibShapes.rectangle', gs.rectangle, mass=[1.2, 3.], x=[1., 2.], y=[1.5, .4], z=[.7, 3.], nx=[3, 2], ny=[2, 4], nz=[3, 1])
E('glibShapes.annulus', gs.annulus, mass=[1.2, 3.], r1=[.4, .7], r2=[1.5, 2.], t=[.7, 3.], nx=[5, 4], nz=[2, 1])
E('glibShapes.cone', gs.cone, mass=[1.2, 3.], R=[1.5, 2.], H=[.7, 3.], beta=[.9, 2.5], nx=[5, 4], nz=[3, 2])
E('glibShapes.wedge', gs.wedge, mass=[1.2, 3.], r1=[.4, .7], r2=[1.5, 2.], t=[.7, 3.], beta=[.9, 2.5], nx=[5, 4], nz=[2, 1])
E('glibShapes.trapezoid', gs.trapezoid, mass=[1.2, 3.], r1=[.4, .7], r2=[1.5, 2.], t=[.7, 3.], beta=[.6, .3], nx=[5, 4], nz=[2, 1])
E('glibShapes.outer_cone', gs.outer_cone, mass=[1.2, 3.], r1=[.4, .7], r2=[1.5, 2.], H=[.7, 3.], beta=[.9, 2.5], nx=[5, 4], nz=[2, 3])
E('glibShapes.tri_prism', gs.tri_prism, mass=[1.2, 3.], d=[1.1, .6], y1=[-.4, .2], y2=[.7, 1.2], t=[.7, 2.], nx=[4, 3], ny=[4, 5], nz=[2, 1])
E('glibShapes.tetrahedron', gs.tetrahedron, mass=[1.2, 3.], x=[1.1, .6], y1=[-.4, .2], y2=[.7, 1.2], z=[.7, 2.], nx=[5, 6], ny=[5, 4], nz=[5, 4])
E('glibShapes.ngon_prism', gs.ngon_prism, mass=[1.2, 3.], H=[.6, 2.], a=[.7, 1.5], N=[5, 6], nx=[5, 6], nz=[2, 1])
E('glibShapes.pyramid', gs.pyramid, mass=[1.2, 3.], x=[1.1, .6], y=[.7, 1.2], z=[.7, 2.], nx=[5, 4], ny=[5, 4], nz=[5, 4])
E('glibShapes.cylhole', gs.cylhole, mass=[1.2, 3.], r=[.7, .4], R=[1., 1.4], nx=[5, 4], nz=[5, 4])
E('glibShapes.platehole', gs.platehole, mass=[1.2, 3.], t=[.7, 1.4], r=[.6, .9], theta=[.3, -.5], nx=[7, 6], ny=[5, 6], nz=[4, 5])
E('glibShapes.spherical_random_shell', gs.spherical_random_shell, mass=[1.2, 3.], r=[.7, 2.], N=[50, 200],
  post=lambda r: np.array([r[:, 0].sum(), np.abs(np.sqrt((r[:, 1:]**2).sum(1))).max(), np.abs(np.sqrt((r[:, 1:]**2).sum(1))).min()]))
E('gShapeGL.rectangle', gl.rectangle, mass=[1.2, 3.], x=[1., 2.], y=[1.5, .4], z=[.7, 3.], dx=[3, 2], dy=[2, 4], dz=[3, 1])
E('gShapeGL.sphere', gl.sphere, mass=[1.2, 3.], r=[1., 2.], dd=[3, 4])
E('gShapeGL.annulus', gl.annulus, mass=[1.2, 3.], iR=[.4, .7], oR=[1.5, 2.], t=[.7, 2.], dd=[3, 4], dz=[2, 3])
E('gShapeGL.cone', gl.cone, mass=[1.2, 3.], R=[1.5, 2.], H=[.7, 2.], dd=[3, 4], dz=[2, 3])
E('gShapeGL.wedge', gl.wedge, mass=[1.2, 3.], iR=[.4, .7], oR=[1.5, 2.], t=[.7, 2.], theta=[.6, 1.4], dd=[3, 4], dz=[2, 3])
E('gShapeGL.tri_prism', gl.tri_prism, mass=[1.2, 3.], d=[1.1, .6], y1=[-.4, .2], y2=[.7, 1.2], t=[.7, 2.], dx=[4, 3], dy=[4, 2], dz=[2, 1])
for n in ('qmoment', 'Qmomentb'):
    E('pg2Multi.'+n, getattr(pg, n), l=[3, 2, 4], m=[1, -2, 0, 2], a=[c1, cloud(5, seed=8), c3])
    E('pg2Multi.'+n+'s', getattr(pg, n+('s' if n == 'qmoment' else 'sb') if 0 else {'qmoment': 'qmoments', 'Qmomentb': 'Qmomentsb'}[n]), l=[3, 2, 5], a=[c1, cloud(5, seed=8), c3])
E('pg2Multi.imoment', pg.imoment, l=[3, 2, 4], m=[1, -2, 0, 2], lmbd=[.8, 3.], a=[c1, cloud(5, seed=8), c3])
E('pg2Multi.imoments', pg.imoments, l=[3, 2, 5], lmbd=[.8, 3.], a=[c1, cloud(5, seed=8), c3])
LL = [4, 2, 7]
E('qlm.sphere', qlm.sphere, L=LL, mass=[1.2, 3.], R=[.8, 2.])
E('qlm.cylinder', qlm.cylinder, [(4, 1.2, -1., .8)], L=LL, mass=[1.2, 3.], H=[.8, 2.], R=[.6, 1.7])
E('qlm.annulus', qlm.annulus, [(4, 1.2, 1., 1.8, .9, .2, .6)], L=LL, mass=[1.2, 3.], H=[.8, 2.], Ri=[.6, .3], Ro=[1.1, 1.7], phic=[.3, -1.], phih=[.7, PI])
E('qlm.cone', qlm.cone, [(4, 1.2, -1., .8, 0., 1.)], L=LL, mass=[1.2, 3.], P=[.8, 2.], R=[1.1, 1.7], phic=[.3, -1.], phih=[.7, PI])
E('qlm.tri_iso_prism', qlm.tri_iso_prism, [(4, 1.2, -1., .8, 1., 1.)], L=LL, mass=[1.2, 3.], H=[.8, 2.], a=[1.1, 1.7], d=[.7, -.4], phic=[.3, -1.])
E('qlm.tri_iso_prism2', qlm.tri_iso_prism2, [(4, 1.2, -1., .8, 1., 1.)], L=LL, mass=[1.2, 3.], H=[.8, 2.], R=[1.1, 1.7], phic=[.3, -1.], phih=[.7, 1.3])
E('qlm.tri_prism', qlm.tri_prism, [(4, 1.2, -1., .8, 1., 2.)], L=LL, mass=[1.2, 3.], H=[.8, 2.], d=[1.1, .6], y1=[-.4, .2], y2=[.7, 1.2])
E('qlm.rect_prism', qlm.rect_prism, [(4, 1.2, -1., .8, 1., 2.)], L=LL, mass=[1.2, 3.], H=[.8, 2.], a=[1.1, .6], b=[.9, 2.2], phic=[.3, -1.])
E('qlm.ngon_prism', qlm.ngon_prism, [(4, 1.2, -1., .8, 1., 5)], L=LL, mass=[1.2, 3.], H=[.8, 2.], a=[1.1, .6], phic=[.3, -1.], N=[5, 3, 4])
E('qlm.tetrahedron', qlm.tetrahedron, [(4, 1.2, -1., .8, 1.)], L=LL, mass=[1.2, 3.], x=[.8, 2.], y=[1.1, .6], z=[.7, 1.5])
E('qlm.tetrahedron2', qlm.tetrahedron2, [(4, 1.2, -1., .8, 1., 2.)], L=LL, mass=[1.2, 3.], x=[.8, 2.], y1=[-.4, .2], y2=[1.1, .6], z=[.7, 1.5])
E('qlm.pyramid', qlm.pyramid, [(4, 1.2, -1., .8, 1.)], L=LL, mass=[1.2, 3.], x=[.8, 2.], y=[1.1, .6], z=[.7, 1.5])
LA = [5, 2, 4, 6]
E('qlmACH.rect_prism', ach.rect_prism, [(5, 1., -1., 1., 1.)], L=LA, rho=[1.3, 2.], x=[.8, 2.], y=[1.1, .6], z=[.7, 1.5])
E('qlmACH.annulus', ach.annulus, [(5, 1., -1., 1., 2., .1, .2)], L=LA, rho=[1.3, 2.], H=[.8, 2.], Ri=[.6, .3], Ro=[1.1, 1.7], phic=[.3, -1.], phih=[.7, PI])
E('qlmACH.cone', ach.cone, [(5, 1., -1., 1., 2.)], L=LA, rho=[1.3, 2.], h=[.8, 2.], r1=[.6, .3], r2=[1.1, 1.7])
E('qlmACH.cone2', ach.cone2, [(5, 1., -1., 1., 2.)], L=LA, rho=[1.3, 2.], h=[.8, 2.], r1=[.6, .3], r2=[1.1, 1.7])
E('qlmACH.tri_prism', ach.tri_prism, [(5, 1., -1., 1., 2., 3.)], L=LA, rho=[1.3, 2.], h=[.8, 2.], d=[1.1, .6], y1=[-.4, .2], y2=[.7, 1.2])
E('qlmACH.trapezoid', ach.trapezoid, [(5, 1., -1., 1., 2., 3.)], L=LA, rho=[1.3, 2.], t=[.8, 2.], w1=[.6, .3], w2=[1.1, 1.7], h=[.7, 1.5])
E('qlmACH.cylindrical_section', ach.cylindrical_section, [(5, 1., -1., 1., .2)], L=LA, rho=[1.3, 2.], t=[.8, 2.], r=[1.6, 2.3], d=[1.1, .7])
E('qlmACH.tetrahedron', ach.tetrahedron, [(5, 1., -1., 1., .2)], L=LA, rho=[1.3, 2.], x=[.8, 2.], y=[1.1, .6], z=[.7, 1.5])
E('qlmACH.cylhole', ach.cylhole, [(5, 1., 2., 1.)], L=LA, rho=[1.3, 2.], r=[.6, .3], R=[1.1, 1.7])
E('qlmACH.cylhole2', ach.cylhole2, [(5, 1., 2., 1.)], L=LA, rho=[1.3, 2.], r=[.6, .3], R=[1.1, 1.7])
E('qlmACH.platehole', ach.platehole, [(5, 1., -2., 1., .1)], L=LA, rho=[1.3, 2.], t=[.6, .3], r=[1.1, 1.7], theta=[.4, -.7])
E('qlmACH.pyramid', ach.pyramid, [(5, 1., -2., 1., 1.)], L=LA, rho=[1.3, 2.], h=[.6, .3], x=[1.1, 1.7], y=[.4, 2.])
E('qlmNum.cyl_mom', qn.cyl_mom, [(1, 1., -1., .1, .2, .1, .2)], slow=True, L=[1, 0], dens=[1.3, 2.], phih=[.7, PI], IR=[.6, .3], OR=[1.1, 1.7], h1=[-.3, .1], h2=[.4, .9])
E('qlmNum.cone_mom', qn.cone_mom, [(1, 1., -1., .1, .2, .1)], slow=True, L=[1, 0], dens=[1.3, 2.], phih=[.7, PI], IR=[.6, .3], OR=[1.1, 1.7], H=[.4, .9])
E('qlmNum.trap_mom', qn.trap_mom, [(1, 1., -1., .1, .2, .1, .2)], slow=True, L=[1, 0], dens=[1.3, 2.], phih=[.7, .4], IR=[.6, .3], OR=[1.1, 1.7], h1=[-.3, .1], h2=[.4, .9])
E('qlmNum.steinmetz', qn.steinmetz, [(0, 1., 2., .1)], slow=True, L=[0], dens=[1.3, 2.], r=[.6, .3], R=[1.1, 1.7])
E('qlmNum.platehole', qn.platehole, [(0, 1., -2., .1, 0.)], slow=True, L=[0], dens=[1.3, 2.], t=[.6, .3], r=[1.1, 1.7], theta=[.4, -.7])
E('bigQlm.sphere', bq.sphere, [(4, 1., .6, 0., 0., 0.)], L=LL, dens=[1.3, 2.], R=[.6, .3], x=[1.1, 1.7], y=[.4, -.7], z=[.9, 2.])
E('bigQlm.annulus', bq.annulus, [(4, 1., 1., 2., 1., .1, .2)], L=[5, 2, 4], dens=[1.3, 2.], H=[.8, -2.], r0=[.6, .3], r1=[1.1, 1.7], phic=[.3, -1.], phih=[.7, PI])
E('bigQlmNum.annulus', bqn.annulus, [(1, 1., 1., 2., 2., 1., .2)], slow=True, L=[1, 0], dens=[1.3, 2.], h1=[-.3, .1], h2=[.4, .9], IR=[.6, .3], OR=[1.1, 1.7], phih=[.7, PI])
E('bigQlmNum.outer_cone', bqn.outer_cone, [(1, 1., -1., 2., 2., 1.)], slow=True, L=[1, 0], dens=[1.3, 2.], H=[.4, .9], IR=[.6, .3], OR=[1.1, 1.7], phih=[.7, PI])
E('bigQlmNum.trapezoid', bqn.trapezoid, [(1, 1., 1., 2., 2., 1., .2)], slow=True, L=[1, 0], dens=[1.3, 2.], h1=[-.3, .1], h2=[.4, .9], IR=[.6, .3], OR=[1.1, 1.7], phih=[.7, .4])
for n in ('cgCoeff', 'cgCoeff2'):
    E('clebschGordan.'+n, getattr(cg, n), j1=[3, 4], j2=[2, 4], m1=[1, 0, -1], m2=[-1, 1], J=[4, 3, 5], M=[0, 1])
E('multipoleLib.force_basis', mp.force_basis, L=[3, 2, 5], x=[.3, 0.], y=[-.4, 0.], z=[.8, -.2])
q3, q3b, q2 = M(3, 5), M(3, 9), M(2, 4)
Q3, Q3b, Q2 = M(3, 15, outer=True), M(3, 19, outer=True), M(2, 14, outer=True)
for n in ('multipole_force', 'multipole_force_m'):
    E('multipoleLib.'+n, getattr(mp, n), L=[3, 2], q=[q3, q3b], Q=[Q3, Q3b], x=[.3, 0.], y=[-.4, 0.], z=[.8, -.2], cnst=[1., 2.])
E('multipoleLib.torque_lm', mp.torque_lm, q=[q3, q3b, q2], Q=[Q3, Q3b, Q2], cnst=[1., 2.])
E('multipoleLib.torque', mp.torque, q=[q3, q3b, q2], Q=[Q3, Q3b, M(3, 8)], e=[np.array([.3, .4, .5]), np.array([.3, .4, -1.]), [.1, 2., 3.]],
  r=[np.array([.1, .2, .3]), np.array([.1, .2, -.3]), [0., 0, .4]], t=['inner-inner', 'inner-outer', 'outer-outer'], cnst=[1., 2.])
E('multipoleLib.embed_qlm', mp.embed_qlm, q=[q3, q3b, q2], L=[5, 3, 2, 0])
t1, t2 = np.array([.3, 1., -.2, .5]), np.array([.7, -1., .2, .4])
E('multipoleLib.torques_at_angle', mp.torques_at_angle, tc=[t1, t2], ts=[t2, t1], a=[np.array([.1, .9, 2.]), np.array([0., 1., 3.]), .4], outer=[False, True])
E('rotations.dlmn', rot.dlmn, L=[3, 2, 5], beta=[.4, -2., PI])
E('rotations.wignerDl', rot.wignerDl, L=[3, 2, 5], a=[.3, -1.], b=[.4, -2.], c=[.6, 5.])
EU = dict(a=[.3, -1.], b=[.4, -2.], c=[.6, 5.])
E('rotations.rotate_qlm', rot.rotate_qlm, q=[q3, q3b, q2], **EU)
E('rotations.rotate_H_recurs', rot.rotate_H_recurs, p=[3, 2, 5], beta=[.4, 2.])
E('rotations.Dlmn', rot.Dlmn, l=[3, 2], m=[1, -1, 2], n=[0, 2], **EU)
E('rotations.Dl', rot.Dl, l=[3, 2, 4], **EU)
ds, ds2 = [[np.array(rot_, complex) for rot_ in o.rot_matrices(3, o.euler_zyz(*e))] for e in ((.3, .4, .6), (1., -2., 3.))]


def tri(ms):
    """matrices as the list of arrays of rotations.wignerDl"""
    return ms


E('rotations.rotate_qlm_Ds', lambda q, e, ct: rot.rotate_qlm_Ds(q, rot.wignerDl(3, *e), ct), q=[q3, q3b], e=[(.3, .4, .5), (1., 2., 3.)], ct=[False, True])
E('rotations.rotate_qlm_Ds_right', lambda q, e, ct: rot.rotate_qlm_Ds_right(q, rot.wignerDl(3, *e), ct), q=[q3, q3b], e=[(.3, .4, .5), (1., 2., 3.)], ct=[False, True])
V = [np.array([.3, -.4, .8]), np.array([.3, -.4, -.8]), [0., 0, .5], np.array([0., 0, -.5])]
for mod, nm in ((tr, 'translations'), (rec_, 'translationRecurs')):
    E(nm+'.translate_qlm', mod.translate_qlm, q=[q3, q3b, q2], r=V)
    E(nm+'.translate_Qlmb', mod.translate_Qlmb, q=[Q3, Q3b, Q2], r=V)
    E(nm+'.translate_q2Q', mod.translate_q2Q, q=[q3, q3b, q2], r=V)
for n in ('RR', 'SS', 'SR'):
    E('translationRecurs.transl_newt_z_'+n, getattr(rec_, 'transl_newt_z_'+n), L=[3, 2, 5], dr=[.4, 1.7])
for n in ('apply_trans_mat', 'apply_trans_mat_right'):
    E('translationRecurs.'+n, lambda q, d, q2Q, n=n: getattr(rec_, n)(q, (rec_.transl_newt_z_SR if q2Q else rec_.transl_newt_z_RR)(3, d), q2Q), q=[q3, q3b], d=[.4, 1.7], q2Q=[False, True])


def write(name, text):
    with open(name, 'w') as f:
        f.write(text)


def table(L, k):
    rows = [f'{1.5+l+m/7+k} {0 if m == 0 else .3*l-m*k}' for l in range(L+1) for m in range(l+1)]
    return '\n'.join(['title', f'{L} 0']+['head']*7+rows)+'\n'


def mpc(k, shape='sphere'):
    dims = {'sphere': f'{1+k}', 'triangle': f'{1+k},-1,1,2', 'none': '1'}[shape]
    kind = {'none': 'widget'}.get(shape, shape)
    return f'title\ncreate,{kind}\n{dims}\n{8.5+k}\n0.1,0.2,{.3*k}\nadd to total\nrotate,zyz,30,40,{50+k}\ntranslate,1,2,3\nadd to total\nend\n'


def mpc_real(k, shape):
    import glob
    return mpc(k, shape)


def reader(fn, first=()):
    def f(name, sub, text):
        d = os.path.join(os.getcwd(), sub)
        os.makedirs(d, exist_ok=True)
        write(os.path.join(d, name), text)
        return fn(*first, name, d+os.sep)
    return f


E('read_gsq', reader(rm.read_gsq), name=['a.gsq', 'b.gsq'], sub=['p', 'q'], text=[table(2, 0), table(2, 1), table(3, 2)])
E('read_gbq', reader(rm.read_gbq), name=['a.gbq', 'b.gbq'], sub=['p', 'q'], text=[table(2, 0), table(2, 1), table(3, 2)])
E('read_mpc', lambda L, *a: reader(rm.read_mpc, (L,))(*a), L=[3, 2], name=['a.mpc', 'b.mpc'], sub=['p', 'q'], text=[mpc(0), mpc(1), mpc(0, 'triangle'), mpc(1, 'triangle'), mpc(0, 'none')])


def cad(m):
    s = m.val()
    c = s.Center()
    bb = s.BoundingBox()
    return np.array([float(bool(m.pmass)), s.Volume(), c.x, c.y, c.z, bb.xmin, bb.xmax, bb.ymin, bb.ymax, bb.zmin, bb.zmax])


P = [True, False]
for n, a in dict(sphere=dict(R=[1., 2.]), cylinder=dict(H=[.8, 2.], R=[1., .4]), annulus=dict(H=[.8, 2.], Ri=[.3, .5], Ro=[1., .9], phic=[.3, 2.], phih=[.7, PI]),
                 cone=dict(H=[.8, 2.], r1=[.3, .5], r2=[1., .9], phic=[.3, 2.], phih=[.7, PI]), tri_iso_prism=dict(H=[.8, 2.], a=[.3, .5], d=[1., .9], phic=[.3, 2.]),
                 tri_iso_prism2=dict(H=[.8, 2.], R=[.3, .5], phic=[1., .9], phih=[.3, 1.]), tri_prism=dict(H=[.8, 2.], d=[1., .6], y1=[-.3, .2], y2=[.9, .7]),
                 rect_prism=dict(H=[.8, 2.], a=[.3, .5], b=[1., .9], phic=[.3, 2.]), trapezoid=dict(t=[.8, 2.], w1=[.3, .5], w2=[1., .9], h=[.3, 2.]),
                 ngon_prism=dict(H=[.8, 2.], a=[.3, .5], phic=[1., .9], N=[5, 6]), tetrahedron=dict(x=[.8, 2.], y=[.3, .5], z=[1., .9]),
                 tetrahedron2=dict(x=[.8, 2.], y1=[-.3, .2], y2=[.9, .7], z=[1., .9]), pyramid=dict(x=[.8, 2.], y=[.3, .5], z=[1., .9]),
                 platehole=dict(t=[.8, 2.], r=[.3, .5], theta=[.3, -.2]), outercone=dict(H=[.8, 2.], IR=[.3, .5], OR=[1., .9], phih=[.7, PI])).items():
    E('genCAD.'+n, getattr(gc, n), cad=True, post=cad, p=P, **a)
E('genCAD.rotate_mesh', lambda s, a, b, c: gc.rotate_mesh(gc.tetrahedron(True, s, 1., .7), a, b, c), cad=True, post=cad, s=[1., 2.], **EU)
E('genCAD.translate_mesh', lambda s, v: gc.translate_mesh(gc.tetrahedron(True, s, 1., .7), v), cad=True, post=cad, s=[1., 2.], v=V)
E('genCAD.sum_mesh', lambda s, v: gc.sum_mesh([gc.tetrahedron(True, s, 1., .7), gc.translate_mesh(gc.rect_prism(True, 1., 1., 1., 0.), v)]), cad=True, post=cad,
  s=[1., 2.], v=[np.array([.3, .3, .2]), np.array([3., 3., 3.])])


def shp(ob):
    return np.asarray(ob.qlm), np.asarray(ob.com, float), float(ob.mass), int(ob.lmax), bool(ob.inner), cad(ob.mesh)


S = dict(L=[2, 3], inner=[True], mass=[1.3, -2.])
for n, a in dict(Annulus=dict(H=[.8, 2.], Ri=[.3, .5], Ro=[1., .9], phic=[.3, 2.], phih=[.7, PI]), RectPrism=dict(H=[.8, 2.], a=[.3, .5], b=[1., .9], phic=[.3, 2.]),
                 TriPrism=dict(H=[.8, 2.], d=[1., .6], y1=[-.3, .2], y2=[.9, .7]), Cone=dict(P=[.8, 2.], R=[1., .9], phic=[.3, 2.], phih=[.7, PI]),
                 Sphere=dict(R=[.4, .7], c=[np.array([.1, .2, .9]), np.array([.1, 1.2, .9]), [0., 0, 2]]), NGon=dict(H=[.8, 2.], a=[.3, .5], phic=[1., .9], N=[5, 6]),
                 Tetrahedron=dict(x=[.8, 2.], y1=[-.3, .2], y2=[.9, .7], z=[1., .9]), Pyramid=dict(x=[.8, 2.], y=[.3, .5], z=[1., .9])).items():
    s = dict(S)
    if n in ('Annulus', 'Sphere'):
        s['inner'] = P
    E('shapes.'+n, getattr(sh, n), cad=True, post=shp, **s, **a)


def history(mass, ops, y1):
    """an object moved while another one of the same kind is alive"""
    a = sh.Tetrahedron(2, True, mass, .8, y1, .9, 1.)
    b = sh.Tetrahedron(3, True, 1., .7, -.2, .9, 1.)
    for op in ops:
        if op == 'r':
            a.rotate(.3, .4, .5)
        elif op == 't':
            a.translate(np.array([2., .1, .2]), True)
        elif op == 'T':
            b.translate([0, 0, 3.], False)
        elif op == 'R':
            b.rotate(.1, .2, .3)
        else:
            a.add(sh.RectPrism(2, True, 1.5, .2, .3, .4, 0.))
    return shp(a)+shp(b)


E('shapes.history', history, cad=True, mass=[1.2, 2.], ops=['rt', 'trTR', 'tra', 'RT', ''], y1=[-.3, .2])
NAMES = list(CAT)


# ---------------------------------------------------------------------------
def copy_args(a):
    return tuple(x.copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else x for x in a)


def leaves(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in leaves(y)]
    return []


def plain(r):
    """a private picture of a result"""
    if isinstance(r, (list, tuple)):
        return ['seq']+[plain(x) for x in r]
    if r is None or isinstance(r, (str, bool)):
        return r
    a = np.array(r)
    return a if a.dtype != object else ['obj']+[plain(x) for x in np.ravel(a)]


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind not in 'iufcb':
            return bool(np.all(a == b))
        if a.size == 0:
            return True
        ok = (a == b) | ((a != a) & (b != b))
        with np.errstate(all='ignore'):
            fin = np.abs(np.where(np.isfinite(a), a, 0))
            ok |= np.abs(a-b) <= 1e-12*fin.max()
        return bool(np.all(ok))
    return type(a) is type(b) and a == b


def glob():
    st = np.random.get_state()
    return (tuple(sorted(np.geterr().items())), st[0], st[1].tobytes(), st[2], repr(np.get_printoptions()), os.getcwd(), len(warnings.filters),
            glib.BIG_G, sys.getrecursionlimit())


GN = ('np.geterr', 'np.random', 'np.random', 'np.random', 'print options', 'working directory', 'warning filters', 'BIG_G', 'recursion limit')


class Talk:
    """what a child process found"""
    def __init__(self):
        self.fails, self.n = [], 0

    def fail(self, what, case, msg):
        if len(self.fails) < 8:
            self.fails.append((what, case, msg))


def call(talk, name, args, hist, argobj=None, check=True):
    """run one case; picture of the result (or of the refusal)"""
    e = CAT[name]
    a = argobj if argobj is not None else copy_args(args)
    if check:
        before = plain(a)
        g0 = glob()
    talk.n += 1
    try:
        r = e['fn'](*a)
        bad = None
    except Exception as ex:
        r, bad = None, type(ex).__name__
    if check:
        if not same(before, plain(a)):
            talk.fail(f'{name}: argument modified', hist, f'{short(before)} became {short(plain(a))}')
        g1 = glob()
        if g0 != g1:
            d = [n for n, x, y in zip(GN, g0, g1) if x != y]
            if name != 'glibShapes.spherical_random_shell' or set(d) != {'np.random'}:
                talk.fail(f'{name}: global state modified', hist, d)
    if bad:
        return ['raised', bad], None, a
    lv = leaves(r) if e['post'] is None else []
    if check:
        for x in lv:
            if any(np.shares_memory(x, y) for y in leaves(a)):
                talk.fail(f'{name}: the result shares memory with an argument', hist, '')
        for i, x in enumerate(lv):
            if any(x is y or (x.size and np.shares_memory(x, y)) for y in lv[:i]):
                talk.fail(f'{name}: results share memory', hist, '')
    return plain(e['post'](r) if e['post'] else r), (r if e['post'] is None else None), a


def child(fn):
    """run fn(talk) in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with tempfile.TemporaryDirectory() as d:
                os.chdir(d)
                np.seterr(all='warn')
                warnings.simplefilter('ignore')
                t = Talk()
                try:
                    out = fn(t)
                except BaseException as ex:
                    import traceback
                    out = None
                    t.fail('exception', 'history', f'{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}')
                os.chdir('/')
            with os.fdopen(w, 'wb') as f:
                pickle.dump((t.fails, t.n, out), f)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if st:
        return [('crash', 'history', f'process ended with status {st}')], 0, None
    return pickle.loads(data)


def gather(rec, res, first):
    fails, n, out = res
    rec.trace(n)
    for what, case, msg in fails:
        rec.fail(what, [first, case], msg)
    return out


def lab(name, i):
    return f'{name}#{i}{list(CAT[name]["cases"][i])!r}'[:160]


REF = {}


def reference(rec, name, i):
    """result in a fresh process"""
    if (name, i) not in REF:
        REF[name, i] = gather(rec, child(lambda t: call(t, name, CAT[name]['cases'][i], 'first call')[0]), lab(name, i))
        bad = isinstance(REF[name, i], list) and REF[name, i][:1] == ['raised']
        if not isinstance(CAT[name]['cases'][i], Bad):
            rec.check(not bad, f'{name}: exception', lab(name, i), REF[name, i])
    return REF[name, i]


def expect(talk, name, i, hist, **k):
    p, r, a = call(talk, name, CAT[name]['cases'][i], hist, **k)
    if not same(REF[name, i], p):
        talk.fail(f'{name}: result depends on earlier calls', hist, f'{lab(name, i)}: {short(p)} rather than {short(REF[name, i])}')
    return r, a


def poison(r, a):
    """what a caller may do to what is its own"""
    if r is not None:
        for x in leaves(r):
            if x.flags.writeable and x.dtype.kind in 'fc':
                x.fill(7.25e3)
        if isinstance(r, list):
            del r[1:]
    for x in leaves(a):
        if x.flags.writeable and x.dtype.kind in 'fc':
            x.fill(-3.5e2)


def poisoned(r):
    return all(np.all(x == 7.25e3) for x in (leaves(r) if r is not None else []) if x.flags.writeable and x.dtype.kind in 'fc')


def own(rec, name, tier):
    """all histories of calls of one function: start, b, start, b', ..."""
    cases = CAT[name]['cases'][:CAT[name]['n']]
    for i in range(len(cases)):
        reference(rec, name, i)
        rec.state((name, i))
    distinct = []
    for i in range(len(cases)):
        if not any(same(REF[name, i], d) for d in distinct):
            distinct.append(REF[name, i])
    rec.sample(function=name, cases=len(cases), distinct_results=len(distinct))
    n = len(cases)
    third = None
    if tier == 'thorough' and not CAT[name]['slow'] and not CAT[name]['cad']:
        third = range(n) if n <= 16 else sorted(set(np.linspace(0, n-1, 16).astype(int).tolist()))

    def walk(s):
        def f(t):
            r0, a0 = expect(t, name, s, 'first')
            poison(r0, a0)
            for b in range(n):
                for c in (third or [s]):
                    h = f'{s},{b},{c}'
                    r, a = expect(t, name, b, h)
                    if not poisoned(r0):
                        t.fail(f'{name}: a later call changed an earlier result', h, '')
                    poison(r, a)
                    r0, a0 = expect(t, name, c, h)
                    if not poisoned(r):
                        t.fail(f'{name}: a later call changed an earlier result', h, '')
                    poison(r0, a0)
        return f

    def reuse(s):
        """the caller changes its arrays in place between calls"""
        def f(t):
            for b in range(n):
                if b == s:
                    continue
                a = copy_args(cases[s])
                expect(t, name, s, f'reuse {s},{b}', argobj=a)
                w = []
                for x, y in zip(a, copy_args(cases[b])):
                    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype:
                        x[...] = y
                        w.append(x)
                    elif isinstance(x, list) and isinstance(y, list):
                        x[:] = y
                        w.append(x)
                    else:
                        w.append(y)
                expect(t, name, b, f'reuse {s},{b}', argobj=tuple(w))
        return f

    has_arrays = any(isinstance(x, (np.ndarray, list)) for x in cases[0])
    # integrals that take long: histories that start from (and return to) one call
    for s in ([0] if tier == 'quick' and CAT[name]['slow'] else range(n)):
        gather(rec, child(walk(s)), lab(name, s))
        rec.trans(2*n*(len(third) if third else 1))
        if has_arrays and not isinstance(cases[s], Bad):
            gather(rec, child(reuse(s)), 'reused arguments '+lab(name, s))
            rec.trans(n)


def keep(rec, name, tier):
    """every result of a long series of calls is kept, marked by the caller with
    its number, and must bear that mark at the end"""
    e = CAT[name]
    good = [i for i in range(e['n']) if not isinstance(e['cases'][i], Bad)]
    count = 150 if tier == 'quick' else 700
    if e['cad'] or e['post']:
        count //= 10
    for i in good:
        reference(rec, name, i)

    def walk(series):
        def f(t):
            kept = []
            for k in range(count):
                r, a = expect(t, name, series[k % len(series)], f'call {k} of a series')
                if len(t.fails) > 3:
                    return
                lv = [x for x in (leaves(r) if r is not None else []) if x.flags.writeable and x.dtype.kind in 'fc']
                for x in lv:
                    x.fill(1000.+k)
                kept.append(lv)
            for k, lv in enumerate(kept):
                if not all(np.all(x == 1000.+k) for x in lv):
                    t.fail(f'{name}: a later call changed an earlier result', f'result {k} of a series of {count} calls', '')
        return f
    for series in (good[:1], good):
        gather(rec, child(walk(series)), f'series of {count} calls '+lab(name, series[0]))
        rec.state((name, 'series', len(series)))
        rec.trans(count)


def nearby(rec, name, tier):
    """arguments that differ by very little must not be taken for one another"""
    e = CAT[name]
    ks = list(range(e['n'], e['look']))
    if e['cad'] and tier == 'quick':
        ks = ks[1::3]
    for i in [0]+ks:
        reference(rec, name, i)
        rec.state((name, i))
    if not any(not same(REF[name, 0], REF[name, i]) for i in ks):
        rec.sample(function=name, nearby='no result distinguishes the arguments')

    def f(t):
        for i in ks:
            for j in (0, i, 0):
                r, a = expect(t, name, j, f'nearby {i} {j}')
                poison(r, a)

    def g(t):
        for i in ks:
            r, a = expect(t, name, i, f'nearby {i}')
            poison(r, a)
        for i in ks[::-1]:
            r, a = expect(t, name, i, f'nearby, second time {i}')
            poison(r, a)
    if ks:
        for w in (f, g):
            gather(rec, child(w), 'nearby '+lab(name, 0))
        rec.trans(5*len(ks))


def lookalike(rec, name, tier):
    """arguments that have much in common must not be taken for one another"""
    e = CAT[name]
    ks = list(range(e['look'], len(e['cases'])))
    if not ks:
        return
    for i in ks:
        # (refusals are as good as results here)
        if (name, i) not in REF:
            REF[name, i] = gather(rec, child(lambda t: call(t, name, e['cases'][i], 'first call')[0]), lab(name, i))
        rec.state((name, i))

    def f(t):
        for i in ks:
            for j in (ks[0], i):
                r, a = expect(t, name, j, f'lookalike {i} {j}')
                poison(r, a)

    def g(t):
        for i in ks+ks[::-1]:
            r, a = expect(t, name, i, f'lookalikes {i}')
            poison(r, a)
    for w in (f, g):
        gather(rec, child(w), 'lookalikes '+lab(name, ks[0]))
    rec.trans(4*len(ks))


def cross(rec, name, tier):
    """this function first, then every other one, then this one again"""
    others = [n for n in NAMES if tier == 'thorough' or not CAT[n]['slow'] and CAT[n]['cad'] == CAT[name]['cad']]
    nb = range(1) if tier == 'quick' else (0, -1)
    reference(rec, name, 0)
    rec.state(('cross', name))
    for o_ in others:
        for i in nb:
            i %= CAT[o_]['n']
            if isinstance(CAT[o_]['cases'][i], Bad):
                i = 1
            reference(rec, o_, i)

    def pair(gs, rev=False):
        def f(t):
            r0, a0 = expect(t, name, 0, 'first')
            poison(r0, a0)
            for g in gs:
                for i in nb:
                    i %= CAT[g]['n']
                    if isinstance(CAT[g]['cases'][i], Bad):
                        i = 1
                    r, a = expect(t, g, i, f'then {g}')
                    if not poisoned(r0):
                        t.fail(f'{g} changed a result of {name}', g, '')
                    poison(r, a)
                    r0, a0 = expect(t, name, 0, f'then {g}, then {name}')
                    poison(r0, a0)
        return f

    if tier == 'quick':
        gather(rec, child(pair(others)), lab(name, 0))
    else:
        gather(rec, child(pair(others)), lab(name, 0))
        for g in others:
            if not (CAT[g]['slow'] or CAT[g]['cad']) or CAT[g]['cad'] and CAT[name]['cad']:
                gather(rec, child(pair([g])), lab(name, 0)+' '+g)
    rec.trans(2*len(others))


# ---- schedules -------------------------------------------------------------
def steps(fn, args):
    """the lines of the package executed by a call"""
    seen = []

    def tracer(fr, ev, arg):
        if '/newt/' not in fr.f_code.co_filename:
            return None
        if ev == 'line':
            seen.append((fr.f_code.co_filename, fr.f_lineno))
        return tracer
    sys.settrace(tracer)
    try:
        fn(*args)
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return seen


def points(seen, cap):
    """indices of the steps at which the call is suspended: all when there are
    few, otherwise the first, second and last visit of every line"""
    if len(seen) <= cap:
        return list(range(len(seen)))
    where = {}
    for i, s in enumerate(seen):
        where.setdefault(s, []).append(i)
    out = set()
    for v in where.values():
        out |= {v[0], v[-1], v[min(1, len(v)-1)], v[len(v)//2]}
    out = sorted(out)
    return out


def interleave(rec, name, tier):
    cases = CAT[name]['cases']
    e = CAT[name]
    last = e['n']-1
    while isinstance(cases[last], Bad):
        last -= 1
    mates = [(name, last), (name, 1)]
    if tier == 'thorough':
        mates += [(n, 0) for n in NAMES if not CAT[n]['slow'] and not CAT[n]['cad'] and n.split('.')[0] in
                  ('qlm', 'translations', 'translationRecurs', 'rotations', 'multipoleLib', 'pg2Multi', 'glib', 'read_mpc', 'clebschGordan')]
    reference(rec, name, 0)
    for n, i in mates:
        reference(rec, n, i)
    cap = 150 if tier == 'quick' else 600

    def f(t):
        args = copy_args(cases[0])
        seen = steps(e['fn'], args)
        ks = points(seen, cap)
        m = 0
        for n2, i2 in mates:
            for k in (ks if (n2 == name) else ks[::max(1, len(ks)//20)]):
                ctr = [0]

                def other():
                    expect(t, n2, i2, f'while {name} is suspended at step {k} ({seen[k][0][-30:]}:{seen[k][1]})', check=False)

                def tracer(fr, ev, arg):
                    if '/newt/' not in fr.f_code.co_filename:
                        return None
                    if ev == 'line':
                        if ctr[0] == k:
                            th = threading.Thread(target=other)
                            th.start()
                            th.join()
                        ctr[0] += 1
                    return tracer
                a = copy_args(cases[0])
                sys.settrace(tracer)
                try:
                    r = e['fn'](*a)
                except Exception as ex:
                    r = f'{type(ex).__name__}: {ex}'
                finally:
                    sys.settrace(None)
                m += 1
                t.n += 1
                p = r if isinstance(r, str) else plain(e['post'](r) if e['post'] else r)
                if not same(REF[name, 0], p):
                    t.fail(f'{name}: result depends on a concurrent call', f'{n2} run while suspended at step {k} ({seen[k][0][-30:]}:{seen[k][1]})', f'{short(p)} rather than {short(REF[name, 0])}')
        return m, len(seen), len(ks)

    out = gather(rec, child(f), lab(name, 0))
    if out:
        rec.trans(out[0])
        rec.bykind['schedules'] = rec.bykind.get('schedules', 0)+out[0]
        rec.state(('suspended', name, out[1], out[2]))


def tasks(tier, seed):
    t = [(tier, seed, 'own', n) for n in NAMES]
    t += [(tier, seed, 'nearby', n) for n in NAMES if not (tier == 'quick' and CAT[n]['slow'])]
    t += [(tier, seed, 'keep', n) for n in NAMES if not CAT[n]['slow']]
    t += [(tier, seed, 'lookalike', n) for n in NAMES if len(CAT[n]['cases']) > CAT[n]['look']]
    t += [(tier, seed, 'cross', n) for n in NAMES if not (tier == 'quick' and CAT[n]['slow'])]
    t += [(tier, seed, 'threads', n) for n in NAMES if not CAT[n]['cad'] and not n.startswith('read_') and not (tier == 'quick' and CAT[n]['slow'])]
    return sorted(t, key=lambda x: not (CAT[x[3]]['slow'] or CAT[x[3]]['cad']))


def run(task, rec):
    tier, seed, mode, name = task
    {'own': own, 'keep': keep, 'nearby': nearby, 'lookalike': lookalike, 'cross': cross, 'threads': interleave}[mode](rec, name, tier)
