"""consistency of the oracle and of the explorer, without the repository"""
import numpy as np
from mc import oracle as o
from mc import bodies as b
from mc.engine import Rec, explore, bfs, canon


def harm(l, m, X):
    """Y_lm from the Legendre polynomials, an independent route"""
    from math import factorial as f, pi, sqrt
    r = np.linalg.norm(X, axis=1)
    x = X[:, 2]/r
    a = abs(m)
    P = np.polynomial.legendre.Legendre.basis(l).deriv(a)(x) if a else np.polynomial.legendre.Legendre.basis(l)(x)
    P = (-1)**a*(1-x*x)**(a/2)*P
    Y = sqrt((2*l+1)/(4*pi)*f(l-a)/f(l+a))*P*np.exp(1j*a*np.arctan2(X[:, 1], X[:, 0]))
    return Y if m >= 0 else (-1)**a*np.conj(Y)


def main():
    L = 6
    p = np.array([[1.2, .4, -.5, .9], [-.3, 1.1, .2, -.4], [.8, -.6, -.9, .3], [2., .1, .7, -1.2]])
    X = p[:, 1:]
    r = np.linalg.norm(X, axis=1)
    q, Q = o.inner(L, p), o.outer(L, p)
    for l in range(L+1):
        for m in range(-l, l+1):
            Y = harm(l, m, X)
            assert abs((p[:, 0]*r**l*np.conj(Y)).sum()-q[l, L+m]) < 1e-12
            assert abs((p[:, 0]/r**(l+1)*Y).sum()-Q[l, L+m]) < 1e-11
    d = np.array([.3, -.2, .7])
    t = p.copy()
    t[:, 1:] += d
    assert np.allclose(o.translate_inner(q, d), o.inner(L, t), atol=1e-12)
    R = o.euler_zyz(.3, .8, -1.2)
    t = p.copy()
    t[:, 1:] = X @ R.T
    assert np.allclose(o.rotate_inner(q, R), o.inner(L, t), atol=1e-12)
    assert np.allclose(o.rotate_outer(Q, R), o.outer(L, t), atol=1e-11)
    far = p.copy()
    far[:, 1:] *= 8/r[:, None]
    t = far.copy()
    t[:, 1:] += d
    K = 24
    e = o.translate_outer(o.outer(K, far), d)[:4, K-3:K+4]-o.outer(3, t)
    assert np.abs(e).max() < 1e-12
    near = p.copy()
    near[:, 1:] *= .1
    t = near.copy()
    t[:, 1:] += 10*d
    e = o.translate_in2out(o.inner(K, near), 10*d)[:4, K-3:K+4]-o.outer(3, t)
    assert np.abs(e).max() < 1e-12
    for rule, vol in ((b.ball(4, 2), 32*np.pi/3), (b.annulus(4, 2, 1, 2, .3, .5), 3.0), (b.pyramid(4, 1, 2, 3), 8.0),
                      (b.ngon(4, 2, 1, .3, 4), 2.0), (b.steinmetz(4, 1, 1), 16/3), (b.platehole(4, 1, 1, .5), np.pi/np.cos(.5)),
                      (b.trapezoid(4, 2, 1, 3, 2), 8.0), (b.cyl_section(4, 2, 1, .5), 2*(np.pi/3-np.sqrt(3)/4))):
        assert abs(rule[1].sum()/vol-1) < 1e-9, (rule[1].sum(), vol)
    # the explorer visits the whole product and sees a dependence on history
    rec = Rec()
    explore(rec, 'toy', dict(a=[1, 2, 3], b=[4, 5]), lambda c: np.array([c['a']*c['b']*1.]),
            lambda c, r, k: rec.close(r, [c['a']*c['b']], 'product', k))
    assert len(rec.states) == 6 and rec.nfails == 0 and rec.ntrans == 7
    rec, memo = Rec(), {}
    explore(rec, 'toy', dict(a=[1, 2, 3], b=[4, 5]), lambda c: memo.setdefault(c['a'], np.array([c['a']*c['b']*1.])),
            lambda c, r, k: rec.close(r, [c['a']*c['b']], 'product', k))
    assert rec.nfails > 0
    rec = Rec()
    bfs(rec, 'toy', [('0', 0)], lambda s: ['+1', '*2'], lambda s, op, h: (s+1 if op == '+1' else 2*s) % 7, lambda s: canon(s), 10)
    assert len(rec.states) == 7
    print('selftest ok')
    return 0
