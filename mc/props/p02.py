"""Yukawa force and torque between point-mass arrays."""
import numpy as np
from mc import oracle as o
from mc.props import p01
import newt.glib as glb

ALPHAS = [1.0, -2.5, 1e-3, 0.0, 3, np.float64(.25), np.array(1.5)]
LAMBDAS = [1e-2, 0.3, 1.0, 2, 25.0, np.float64(4e3), 1e6, 1e12, 1e30, 1e100, np.array(2.5)]
tasks = p01.tasks


def make(par):
    alpha, lmbd = par
    L = np.longdouble(lmbd)

    def law(r):
        return np.exp(-r/L)*(1/r**2+1/(r*L))

    def rescale(s):
        return make((alpha, lmbd*s))
    return dict(pm=lambda a, b: glb.point_matrix_yukawa(a, b, alpha, lmbd),
                arr=lambda a, b: glb.yukawa_array(a, b, alpha, lmbd),
                law=law, G=alpha*np.longdouble(o.BIG_G), name='yukawa', rescale=rescale)


def run(task, rec):
    tier, seed, kind, arg = task
    if kind in ('pairs', 'field'):
        pars = [(a, l) for a in ALPHAS for l in LAMBDAS]
        if tier == 'quick':
            # every alpha with one length and every length with one alpha
            pars = [(.6, l) for l in LAMBDAS]+[(a, 1.0) for a in ALPHAS]
    elif kind == 'grow':
        pars = [(1.0, 1.3), (-0.4, 0.2)]
    elif kind == 'inplace':
        pars = [(1.0, 1.3), (-0.4, 0.2), (1.0, 1.3001)]
    else:
        pars = [(1.0, 0.7), (-2.0, 5.0)]
    p01.run(task, rec, make, pars)
