"""Reference solids: each function returns a quadrature rule (points, weights)
that integrates solid harmonics up to degree L over the solid, exactly for
polyhedra and spectrally accurately for curved solids.  Independent of the
repository."""
import numpy as np
from . import oracle as o

PI = np.pi


def _n(L):
    return L//2+4


def ball(L, R):
    return o.ball_rule(_n(L), 0., R)


def box(L, x, y, z):
    n = _n(L)
    return o.box_rule(n, [-x/2, -y/2, -z/2], [x/2, y/2, z/2])


def rot_z(rule, a):
    X, W = rule
    return X @ o.Rz(a).T, W


def annulus(L, H, Ri, Ro, phic, phih, z0=None):
    """annular sector, |z|<H/2 (or z0<z<z0+H)"""
    n = _n(L)
    if z0 is None:
        z0 = -H/2
    return o.polar_rule(n, lambda z: Ri, lambda z: Ro, z0, z0+H,
                        phic-phih, phic+phih, nphi=max(16, 2*n+2*L))


def frustum(L, H, Rlow, Rup, phic, phih, z0):
    """cone frustum sector between z0 and z0+H"""
    n = _n(L)+2
    return o.polar_rule(n, lambda z: 0.,
                        lambda z: Rlow+(Rup-Rlow)*(z-z0)/H, z0, z0+H,
                        phic-phih, phic+phih, nphi=max(16, 2*n+2*L))


def outer_cone(L, H, Rin, Rout, phic, phih):
    """{Rin<rho<Rin+(Rout-Rin)*(...)}: see callers; hollow part of a cone:
    between the cylinder Rin.. and the cone surface"""
    n = _n(L)+2
    return o.polar_rule(n, lambda z: Rin,
                        lambda z: Rout+(Rin-Rout)*z/H, 0., H,
                        phic-phih, phic+phih, nphi=max(16, 2*n+2*L))


def prism(L, tri, z0, z1):
    return o.tri_prism_rule(_n(L)+1, tri, z0, z1)


def tri_prism(L, H, d, y1, y2):
    return prism(L, [(0, 0), (d, y1), (d, y2)], -H/2, H/2)


def trapezoid(L, t, w1, w2, h):
    """x in [0,h], |y| < (w1+(w2-w1)x/h)/2, |z|<t/2"""
    rules = []
    if w1 > 0:
        rules.append(prism(L, [(0, -w1/2), (0, w1/2), (h, w2/2)], -t/2, t/2))
    if w2 > 0:
        rules.append(prism(L, [(0, -w1/2), (h, w2/2), (h, -w2/2)], -t/2, t/2))
    return o.concat(*rules)


def ngon(L, H, a, phic, N):
    d = a/2/np.tan(PI/N)
    rs = [rot_z(prism(L, [(0, 0), (d, -a/2), (d, a/2)], -H/2, H/2),
                phic+2*PI*k/N) for k in range(N)]
    return o.concat(*rs)


def tet(L, v):
    return o.tet_rule(_n(L)+2, v)


def pyramid(L, x, y, z):
    """rectangular base |X|<x, |Y|<y at z=0, apex (0,0,z)"""
    b = [(x, y, 0), (-x, y, 0), (-x, -y, 0), (x, -y, 0)]
    return o.concat(tet(L, [(0, 0, z), b[0], b[1], b[2]]),
                    tet(L, [(0, 0, z), b[0], b[2], b[3]]))


def steinmetz(L, r, R):
    """{x^2+y^2<r^2, x^2+z^2<R^2}: hole axis z, big cylinder axis y"""
    nt = 120
    t, wt = o.gl_ab(nt, -PI/2, PI/2)
    g, wg = o.gl(_n(L)+1)
    x = r*np.sin(t)
    wx = wt*r*np.cos(t)
    ya = r*np.cos(t)
    za = np.sqrt(np.maximum(R*R-x*x, 0))
    if r == R:
        za = R*np.cos(t)
    X = np.stack(np.broadcast_arrays(x[:, None, None],
                                     ya[:, None, None]*g[None, :, None],
                                     za[:, None, None]*g[None, None, :]), -1)
    W = (wx*ya*za)[:, None, None]*wg[None, :, None]*wg[None, None, :]
    return X.reshape(-1, 3), W.ravel()


def platehole(L, t, r, theta):
    """cylinder of radius r about an axis in the xz plane tilted by theta from
    z, cut by |z|<t/2"""
    n = _n(L)+1
    z, wz = o.gl_ab(n, -t/2, t/2)
    rho, wr = o.gl_ab(n+1, 0, r)
    nph = 2*L+8
    ph = 2*PI*np.arange(nph)/nph
    c = np.cos(theta)
    Z, Rr, P = np.meshgrid(z, rho, ph, indexing='ij')
    X = Z*np.tan(theta)+Rr*np.cos(P)/c
    Y = Rr*np.sin(P)
    W = wz[:, None, None]*(wr*rho)[None, :, None]*np.full(nph, 2*PI/nph)/c
    return np.stack([X, Y, Z], -1).reshape(-1, 3), W.ravel()


def cyl_section(L, t, r, d):
    """{x^2+y^2<r^2, x>d, |z|<t/2}"""
    n = _n(L)+2
    z, wz = o.gl_ab(n, -t/2, t/2)
    ym = np.sqrt(r*r-d*d)
    a = np.arcsin(ym/r)
    s, ws = o.gl_ab(40+2*L, -a, a)     # y = r sin s
    g, wg = o.gl(n)
    y = r*np.sin(s)
    xm = r*np.cos(s)
    hw = (xm-d)/2
    X = (d+xm)[None, :, None]/2+hw[None, :, None]*g[None, None, :]
    X, Y, Z = np.broadcast_arrays(X, y[None, :, None], z[:, None, None])
    W = wz[:, None, None]*(ws*r*np.cos(s)*hw)[None, :, None]*wg
    return np.stack([X, Y, Z], -1).reshape(-1, 3), W.ravel()
