"""Numerically integrated inner moments."""
import numpy as np
from mc import oracle as o
from mc import families as F
from mc.props import p15
import newt.qlmNum as qn

PI = np.pi
ASSUME = p15.ASSUME
NUM = {
    'cyl_mom': (qn.cyl_mom, ('phih', 'IR', 'OR', 'h1', 'h2'), dict(h1=[-.3, .2, -1, 0], h2=[.4, 1, 2.1], IR=[0, .5, 1], OR=[1.2, 2, .8], phih=[.4, PI/2, PI, 2.2]),
                lambda g: g['h1'] < g['h2'] and g['IR'] < g['OR'], lambda L, g: F.b.annulus(L, g['h2']-g['h1'], g['IR'], g['OR'], 0, g['phih'], g['h1'])),
    'cone_mom': (qn.cone_mom, ('phih', 'IR', 'OR', 'H'), dict(H=[.5, 1, 1.7], IR=[0, .5, 1], OR=[1.2, 2, .8], phih=[.4, PI/2, PI, 2.2]),
                 lambda g: g['IR'] < g['OR'], lambda L, g: F.wedge(L, g['H'], g['IR'], g['OR'], g['phih'])),
    'trap_mom': (qn.trap_mom, ('phih', 'IR', 'OR', 'h1', 'h2'), dict(h1=[-.3, .2, -1], h2=[.4, 1], IR=[0, .5, 1], OR=[1.2, 2, .8], phih=[.3, .8, 1.1]),
                 lambda g: g['h1'] < g['h2'] and g['IR'] < g['OR'], lambda L, g: F.trap(L, g['h1'], g['h2'], g['IR'], g['OR'], g['phih'])),
    'steinmetz': (qn.steinmetz, ('r', 'R'), dict(r=[.5, 1, .8], R=[1., 1.3, 2]), lambda g: g['r'] <= g['R'], lambda L, g: F.stein_x(L, g['r'], g['R'])),
    'platehole': (qn.platehole, ('t', 'r', 'theta'), dict(t=[1., .3], r=[.5, 1], theta=[0, .4, -.3, 1.1]), lambda g: True,
                  lambda L, g: F.hole_frame(L, g['t'], g['r'], g['theta'])),
}


def tasks(tier, seed):
    t = p15.numtasks({k: NUM[k] for k in ('cyl_mom', 'cone_mom', 'trap_mom')}, tier, seed, 8)
    slow = p15.numtasks({k: NUM[k] for k in ('steinmetz', 'platehole')}, 'quick', seed, 1)
    t += [x for x in slow if tier != 'quick' or not (x[2] == 'numL' and x[4] > 3)]
    return sorted(t, key=lambda x: (x[3] not in ('steinmetz', 'platehole'), -x[4] if x[2] in ('numL', 'numfast') else 0))


def run(task, rec):
    p15.run_num(rec, NUM, task, o.rule_inner, p15.scale_inner)
