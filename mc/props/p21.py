"""Unphysical solids are refused, physical ones are not.  Every combination of
physical and unphysical values of every dimension is tried."""
import itertools
import numpy as np
from mc.engine import Hang
import newt.qlm as qlm
import newt.qlmACH as ach
import newt.qlmNum as qn
import newt.bigQlm as bq
import newt.bigQlmNum as bqn

PI = np.pi
LIMIT = 240     # seconds for a task that takes ten
ASSUME = ['degenerate solids of zero volume whose moments are well defined (equal heights or radii in the routines taking a density, half discs of tri_iso_prism2) are not judged']
LEN = (-1., 0, .7, 2, -1e-6, -1e-12)
SGN = (-1.3, 0, 0., .8)
POSN = (.7, 2)


def pos(*v):
    return all(x > 0 for x in v)


def ang(p, top=PI, closed=True):
    return 0 < p <= top if closed else 0 < p < top


PH = (-.4, 0, .5, PI, PI*(1+1e-9), PI+1e-4, 3.2, 7., -1e-9)
NONE = object()
# name: function, alphabets in the order of the arguments, predicate: True
# (a solid), False (not a solid), None (not judged)
CLOSED = {
    'qlm.cylinder': (qlm.cylinder, dict(H=LEN, R=LEN), lambda H, R: pos(H, R)),
    'qlm.annulus': (qlm.annulus, dict(H=(-1., 0, .7), Ri=(-.5, -3., 0, .7, 2), Ro=(-2., 0, .7, 1.5), phic=(-4., 0, 1.), phih=PH),
                    lambda H, Ri, Ro, phic, phih: pos(H) and 0 <= Ri < Ro and ang(phih)),
    'qlm.cone': (qlm.cone, dict(P=LEN, R=LEN, phic=(-4., 0, 1.), phih=PH), lambda P, R, phic, phih: pos(P, R) and ang(phih)),
    'qlm.tri_iso_prism': (qlm.tri_iso_prism, dict(H=LEN, a=LEN, d=SGN, phic=(-4., 0, 1.)), lambda H, a, d, phic: pos(H, a) and d != 0),
    'qlm.tri_iso_prism2': (qlm.tri_iso_prism2, dict(H=LEN, R=LEN, phic=(-4., 0, 1.), phih=(-.4, 0, .5, 1.5, 1.58, 2., PI)),
                           lambda H, R, phic, phih: pos(H, R) and ang(phih, PI/2)),
    'qlm.tri_prism': (qlm.tri_prism, dict(H=LEN, d=SGN, y1=SGN, y2=SGN), lambda H, d, y1, y2: pos(H) and d != 0 and y1 != y2),
    'qlm.rect_prism': (qlm.rect_prism, dict(H=LEN, a=LEN, b=LEN, phic=(-4., 0, 1.)), lambda H, a, b, phic: pos(H, a, b)),
    'qlm.ngon_prism': (qlm.ngon_prism, dict(H=LEN, a=LEN, phic=(-4., 0, 1.), N=(-3, 0, 1, 2, 3, 4, 7)), lambda H, a, phic, N: pos(H, a) and N >= 3),
    'qlm.tetrahedron': (qlm.tetrahedron, dict(x=LEN, y=LEN, z=LEN), lambda x, y, z: pos(x, y, z)),
    'qlm.tetrahedron2': (qlm.tetrahedron2, dict(x=LEN, y1=SGN, y2=SGN, z=LEN), lambda x, y1, y2, z: pos(x, z) and y1 != y2),
    'qlm.pyramid': (qlm.pyramid, dict(x=LEN, y=LEN, z=LEN), lambda x, y, z: pos(x, y, z)),
    'qlmACH.rect_prism': (ach.rect_prism, dict(x=LEN, y=LEN, z=LEN), lambda x, y, z: pos(x, y, z)),
    'qlmACH.annulus': (ach.annulus, dict(H=(-1., 0, .7), Ri=(-.5, -3., 0, .7, 2), Ro=(-2., 0, .7, 1.5), phic=(-4., 0, 1.), phih=PH),
                       lambda H, Ri, Ro, phic, phih: pos(H) and 0 <= Ri < Ro and ang(phih)),
    'qlmACH.cone': (ach.cone, dict(h=LEN, r1=LEN, r2=LEN), lambda h, r1, r2: pos(h) and r1 >= 0 and r2 >= 0 and r1+r2 > 0),
    'qlmACH.cone2': (ach.cone2, dict(h=LEN, r1=LEN, r2=LEN), lambda h, r1, r2: pos(h) and r1 >= 0 and r2 >= 0 and r1+r2 > 0),
    'qlmACH.tri_prism': (ach.tri_prism, dict(h=LEN, d=SGN, y1=SGN, y2=SGN), lambda h, d, y1, y2: pos(h) and d != 0 and y1 != y2),
    'qlmACH.trapezoid': (ach.trapezoid, dict(t=LEN, w1=LEN, w2=LEN, h=LEN), lambda t, w1, w2, h: pos(t, h) and w1 >= 0 and w2 >= 0 and w1+w2 > 0),
    'qlmACH.cylindrical_section': (ach.cylindrical_section, dict(t=LEN, r=(-1., 0, .7, 2), d=(-1., 0, .5, .7, 1.9, 2)),
                                   lambda t, r, d: pos(t) and 0 < d < r),
    'qlmACH.tetrahedron': (ach.tetrahedron, dict(x=LEN, y=LEN, z=LEN), lambda x, y, z: pos(x, y, z)),
    'qlmACH.cylhole': (ach.cylhole, dict(r=LEN, R=LEN+(1.,)), lambda r, R: 0 < r <= R),
    'qlmACH.cylhole2': (ach.cylhole2, dict(r=LEN, R=LEN+(1.,)), lambda r, R: 0 < r <= R),
    'qlmACH.platehole': (ach.platehole, dict(t=LEN, r=LEN, theta=(-4., -1.7, -PI/2, -1.2, 0, .4, PI/2, 2.)), lambda t, r, theta: pos(t, r) and abs(theta) < PI/2),
    'qlmACH.pyramid': (ach.pyramid, dict(h=LEN, x=LEN, y=LEN), lambda h, x, y: pos(h, x, y)),
    'bigQlm.sphere': (bq.sphere, dict(R=LEN, x=SGN, y=SGN, z=SGN), lambda R, x, y, z: pos(R) and (x, y, z) != (0, 0, 0)),
    'bigQlm.annulus': (bq.annulus, dict(H=(-1., 0, .7), r0=(-.5, -3., 0, .7, 2), r1=(-2., 0, .7, 1.5), phic=(-4., 0, 1.), phih=PH),
                       lambda H, r0, r1, phic, phih: None if r0 == r1 > 0 else H != 0 and 0 < r0 < r1 and ang(phih)),
}


def radii(IR, OR, H1=-1, H2=1, outer=False):
    """True/False/None for the hollow section"""
    if OR <= 0 or IR < 0 or IR > OR or H1 > H2:
        return False
    if outer and IR == 0 and H1 <= 0 <= H2:
        return False
    return None if IR == OR or H1 == H2 else True


def both(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


HH = (-.6, 0, .5)
IRS = (-2., -.3, 0, .4, 1.5)
ORS = (-1., 0, .4, 1.2)
NUMER = {
    'qlmNum.cyl_mom': (qn.cyl_mom, dict(phih=PH, IR=IRS, OR=ORS, h1=HH, h2=HH), lambda phih, IR, OR, h1, h2: both(ang(phih), radii(IR, OR, h1, h2))),
    'qlmNum.cone_mom': (qn.cone_mom, dict(phih=PH, IR=IRS, OR=ORS, H=HH), lambda phih, IR, OR, H: both(ang(phih) and H > 0, radii(IR, OR))),
    'qlmNum.trap_mom': (qn.trap_mom, dict(phih=(-.4, 0, .5, PI/2, 2., 7.), IR=IRS, OR=ORS, h1=HH, h2=HH),
                        lambda phih, IR, OR, h1, h2: both(ang(phih, PI/2, False), radii(IR, OR, h1, h2))),
    'qlmNum.steinmetz': (qn.steinmetz, dict(r=LEN, R=LEN+(1.,)), lambda r, R: 0 < r <= R),
    'qlmNum.platehole': (qn.platehole, dict(t=LEN, r=LEN, theta=(-4., -1.7, -PI/2, -1.2, 0, .4, PI/2, 2.)), lambda t, r, theta: pos(t, r) and abs(theta) < PI/2),
    'bigQlmNum.annulus': (bqn.annulus, dict(h1=HH+(.2,), h2=HH, IR=IRS, OR=ORS, phih=PH),
                          lambda h1, h2, IR, OR, phih: both(ang(phih), radii(IR, OR, h1, h2, True))),
    'bigQlmNum.outer_cone': (bqn.outer_cone, dict(H=HH, IR=IRS, OR=ORS, phih=PH), lambda H, IR, OR, phih: both(ang(phih) and H > 0, radii(IR, OR, outer=True))),
    'bigQlmNum.trapezoid': (bqn.trapezoid, dict(h1=HH+(.2,), h2=HH, IR=IRS, OR=ORS, phih=(-.4, 0, .5, PI/2, 2., 7.)),
                            lambda h1, h2, IR, OR, phih: both(ang(phih, PI/2, False), radii(IR, OR, h1, h2, True))),
}


def tasks(tier, seed):
    return [(tier, seed, 'closed', n) for n in CLOSED]+[(tier, seed, 'num', n) for n in NUMER]


def run(task, rec):
    tier, seed, mode, name = task
    fn, alph, solid = (CLOSED if mode == 'closed' else NUMER)[name]
    geos = [dict(zip(alph, v)) for v in itertools.product(*alph.values())]
    Ls = (0, 2, 5, 6) if mode == 'closed' else (0, 2)
    accepted = refused = 0
    nvalid = 0
    for i, g in enumerate(geos):
        s = solid(**g)
        if s is None:
            continue
        if s:
            nvalid += 1
            if mode == 'num' and nvalid % (40 if tier == 'quick' else 4) != 1:
                continue
        for L, amount in itertools.product(Ls, (1., -2, 0)):
            if s and mode == 'num' and (L or amount != 1.):
                continue
            if accepted > 5 or refused > 5:
                return
            case = [name, L, amount, g]
            rec.state(case)
            rec.trace()
            rec.trans()
            try:
                r = fn(L, amount, *g.values())
            except Hang:
                raise
            except ValueError as e:
                if s:
                    refused += 1
                    rec.fail(f'{name}: a physical solid was refused', case, repr(e))
                continue
            except Exception as e:
                refused += 1
                rec.fail(f'{name}: an exception other than a refusal', case, repr(e))
                continue
            if not s:
                accepted += 1
                rec.fail(f'{name}: an unphysical solid was accepted', case, repr(np.asarray(r).ravel()[:3]))
            else:
                rec.sample(accepted=case)
                rec.check(np.shape(r) == (L+1, 2*L+1) and np.all(np.isfinite(r)), f'{name}: moments of a physical solid', case, r)
