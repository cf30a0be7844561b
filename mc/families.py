"""Tables of the solids whose multipole moments the toolkit knows in closed
form or by quadrature: parameter alphabets, and the reference solid."""
import numpy as np
import newt.qlm as qlm
import newt.qlmACH as ach
from mc import bodies as b
from mc import oracle as o

PI = np.pi
T = o.tet_rule


def tets(n, *vs):
    return o.concat(*[o.tet_rule(n, v) for v in vs])


class Fam:
    """fn(L, amount, **geometry in order); amount is a mass or a density"""

    def __init__(self, name, fn, geo, body, ok=None, dens=False, bad=(), exact=99, mul=(1., 2.), slow=1):
        self.name, self.fn, self.geo, self.body = name, fn, geo, body
        self.ok = ok or (lambda **k: True)
        self.dens, self.bad, self.exact, self.slow = dens, bad, exact, slow


def n(L):
    return L//2+4


LEN = [1.0, 0.35, 2, 3.1]
ANGC = [0., .7, -2.5, 7, PI]
ANGH = [.3, PI/2, 2, PI]

INNER = [
    Fam('sphere', qlm.sphere, dict(R=[1.0, .2, 3, 11.]), lambda L, R: b.ball(L, R)),
    Fam('cylinder', qlm.cylinder, dict(H=[1.0, .3, 2, 4.7, .05], R=[1.0, .4, 3, .02, 2.2]),
        lambda L, H, R: b.annulus(L, H, 0, R, 0, PI), bad=[dict(H=0), dict(H=-1.), dict(R=0), dict(R=-.5), dict(H=-1., R=-1.)]),
    Fam('annulus', qlm.annulus, dict(H=[1.0, .2, 3], Ri=[0, .5, .9, 1], Ro=[1.0, 2, 1.3], phic=ANGC, phih=ANGH),
        lambda L, H, Ri, Ro, phic, phih: b.annulus(L, H, Ri, Ro, phic, phih), ok=lambda **k: k['Ri'] < k['Ro'],
        bad=[dict(H=0), dict(H=-1.), dict(Ri=3.), dict(Ri=-.1), dict(phih=0), dict(phih=-.2), dict(phih=3.2), dict(Ri=1.0001), dict(phih=7.)]),
    Fam('cone', qlm.cone, dict(P=[1.0, .2, 3, 1.7], R=[1.0, .3, 2, 4.1], phic=ANGC, phih=ANGH),
        lambda L, P, R, phic, phih: b.frustum(L, P, R, 0, phic, phih, 0),
        bad=[dict(P=0), dict(P=-1.), dict(R=0), dict(R=-1.), dict(phih=0), dict(phih=-.3), dict(phih=3.2)]),
    Fam('tri_iso_prism', qlm.tri_iso_prism, dict(H=[1.0, .2, 3], a=[1.0, .3, 2, 4.1], d=[1.0, .4, 2, -1.2], phic=ANGC),
        lambda L, H, a, d, phic: b.rot_z(b.prism(L, [(0, 0), (d, a/2), (d, -a/2)], -H/2, H/2), phic),
        bad=[dict(H=0), dict(H=-1.), dict(a=0), dict(a=-1.), dict(d=0)]),
    Fam('tri_iso_prism2', qlm.tri_iso_prism2, dict(H=[1.0, .2, 3], R=[1.0, .3, 2], phic=ANGC, phih=[.3, .8, 1, 1.4]),
        lambda L, H, R, phic, phih: b.rot_z(b.prism(L, [(0, 0), (R*np.cos(phih), R*np.sin(phih)), (R*np.cos(phih), -R*np.sin(phih))],
                                                    -H/2, H/2), phic),
        bad=[dict(H=0), dict(H=-1.), dict(R=0), dict(R=-1.), dict(phih=0), dict(phih=-.3), dict(phih=1.6), dict(phih=2.)]),
    Fam('tri_prism', qlm.tri_prism, dict(H=[1.0, .2, 3], d=[1.0, .5, 2, -1.3], y1=[-.5, 0, .4, 2], y2=[.5, 0, 1, -1.7]),
        lambda L, H, d, y1, y2: b.tri_prism(L, H, d, y1, y2), ok=lambda **k: k['y1'] != k['y2'],
        bad=[dict(H=0), dict(H=-1.), dict(d=0), dict(y1=.5, y2=.5), dict(y1=0, y2=0)]),
    Fam('rect_prism', qlm.rect_prism, dict(H=LEN, a=LEN, b=[1.0, .5, 2], phic=ANGC),
        lambda L, H, a, b: 0, bad=[dict(H=0), dict(H=-1.), dict(a=0), dict(a=-2.), dict(b=0), dict(b=-1.)]),
    Fam('ngon_prism', qlm.ngon_prism, dict(H=[1.0, .2, 3], a=[1.0, .3, 2], phic=ANGC, N=[3, 4, 5, 6, 7, 8, 12, 13, 21, 24, 50, 72]),
        lambda L, H, a, phic, N: b.ngon(L, H, a, phic, N),
        bad=[dict(H=0), dict(H=-1.), dict(a=0), dict(a=-2.), dict(N=0), dict(N=-3)]),
    Fam('tetrahedron', qlm.tetrahedron, dict(x=LEN, y=LEN, z=LEN),
        lambda L, x, y, z: b.tet(L, [(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)]),
        bad=[dict(x=0), dict(x=-1.), dict(y=0), dict(y=-1.), dict(z=0), dict(z=-1.)]),
    Fam('tetrahedron2', qlm.tetrahedron2, dict(x=[1.0, .4, 2], y1=[-.5, 0, .3, 2], y2=[.5, 0, 1, -1.3], z=[1.0, .4, 2]),
        lambda L, x, y1, y2, z: b.tet(L, [(0, 0, 0), (x, y1, 0), (x, y2, 0), (0, 0, z)]), ok=lambda **k: k['y1'] != k['y2'],
        bad=[dict(x=0), dict(x=-1.), dict(y1=.5, y2=.5), dict(z=0), dict(z=-1.)]),
    Fam('pyramid', qlm.pyramid, dict(x=LEN, y=LEN, z=LEN), lambda L, x, y, z: b.pyramid(L, x, y, z),
        bad=[dict(x=0), dict(x=-1.), dict(y=0), dict(y=-1.), dict(z=0), dict(z=-1.)]),
]
# `b` is both a parameter of rect_prism and the name of the module
for f in INNER:
    if f.name == 'rect_prism':
        f.body = lambda L, H, a, phic, **k: b.rot_z(b.box(L, a, k['b'], H), phic)


def cone_c(L, h, r1, r2):
    """r1 upper, r2 lower, |z|<h/2"""
    return b.frustum(L, h, r2, r1, 0, PI, -h/2)


def cone_0(L, h, r1, r2):
    """r1 lower, r2 upper, 0<z<h"""
    return b.frustum(L, h, r1, r2, 0, PI, 0)


ACH = [
    Fam('rect_prism', ach.rect_prism, dict(x=LEN, y=LEN, z=LEN), lambda L, x, y, z: b.box(L, x, y, z),
        bad=[dict(x=0), dict(x=-1.), dict(y=0), dict(y=-1.), dict(z=0), dict(z=-1.)]),
    Fam('annulus', ach.annulus, dict(H=[1.0, .2, 3], Ri=[0, .5, .9, 1], Ro=[1.0, 2, 1.3], phic=ANGC, phih=ANGH),
        lambda L, H, Ri, Ro, phic, phih: b.annulus(L, H, Ri, Ro, phic, phih), ok=lambda **k: k['Ri'] < k['Ro'],
        bad=[dict(H=0), dict(H=-1.), dict(Ri=3.), dict(Ri=1.0), dict(Ri=1.0001), dict(phih=0), dict(phih=-.2), dict(phih=3.2),
             dict(Ri=-2., Ro=0), dict(Ri=-2., Ro=-1.)]),
    Fam('cone', ach.cone, dict(h=[1.0, .3, 2, 4.1], r1=[1.0, 0, .4, 2, 3.3], r2=[1.0, 0, .6, 3]), cone_c, ok=lambda **k: k['r1']+k['r2'] > 0,
        bad=[dict(h=0), dict(h=-1.), dict(r1=0, r2=0)]),
    Fam('cone2', ach.cone2, dict(h=[1.0, .3, 2, 4.1], r1=[1.0, 0, .4, 2, 3.3], r2=[1.0, 0, .6, 3]), cone_0, ok=lambda **k: k['r1']+k['r2'] > 0,
        bad=[dict(h=0), dict(h=-1.), dict(r1=0, r2=0)]),
    Fam('tri_prism', ach.tri_prism, dict(h=[1.0, .2, 3], d=[1.0, .5, 2, -1.3], y1=[-.5, 0, .4, 2], y2=[.5, 0, 1, -1.7]),
        lambda L, h, d, y1, y2: b.tri_prism(L, h, d, y1, y2), ok=lambda **k: k['y1'] != k['y2'],
        bad=[dict(h=0), dict(h=-1.), dict(d=0), dict(y1=.5, y2=.5), dict(y1=0, y2=0)]),
    Fam('trapezoid', ach.trapezoid, dict(t=[1.0, .3, 2], w1=[1.0, 0, .4, 3], w2=[1.0, 0, .7, 2], h=[1.0, .3, 2]),
        lambda L, t, w1, w2, h: b.trapezoid(L, t, w1, w2, h), ok=lambda **k: k['w1']+k['w2'] > 0,
        bad=[dict(t=0), dict(t=-1.), dict(h=0), dict(h=-1.), dict(w1=-.1), dict(w2=-.1), dict(w1=-1., w2=-1.)]),
    Fam('cylindrical_section', ach.cylindrical_section, dict(t=[1.0, .3, 2, 3.1], r=[1.0, 2, 1.7], d=[.5, .1, .9, 1, 1.6]),
        lambda L, t, r, d: b.cyl_section(L, t, r, d), ok=lambda **k: 0 < k['d'] < k['r'],
        bad=[dict(t=0), dict(t=-1.), dict(d=0), dict(r=.5), dict(r=.4), dict(r=-1.), dict(d=1.0), dict(d=4.)]),
    Fam('tetrahedron', ach.tetrahedron, dict(x=LEN, y=LEN, z=LEN),
        lambda L, x, y, z: b.tet(L, [(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)]),
        bad=[dict(x=0), dict(x=-1.), dict(y=0), dict(y=-1.), dict(z=0), dict(z=-1.)]),
    Fam('cylhole', ach.cylhole, dict(r=[1.0, .3, 2, .999], R=[1.0, 2, 3.3, 1.2, 20.]), lambda L, r, R: b.steinmetz(L, r, R),
        ok=lambda **k: k['r'] <= k['R'], bad=[dict(r=0), dict(r=-1.), dict(r=1.1), dict(r=2., R=1), dict(R=-2.)]),
    Fam('cylhole2', ach.cylhole2, dict(r=[1.0, .3, 2, .999], R=[1.0, 2, 3.3, 1.2, 20.]), lambda L, r, R: b.steinmetz(L, r, R),
        ok=lambda **k: k['r'] <= k['R'], bad=[dict(r=0), dict(r=-1.), dict(r=1.1), dict(r=2., R=1), dict(R=-2.)]),
    Fam('platehole', ach.platehole, dict(t=[1.0, .3, 2], r=[1.0, .3, 2], theta=[0, .3, -.3, 1, -1.3]),
        lambda L, t, r, theta: b.platehole(L, t, r, theta), bad=[dict(t=0), dict(t=-1.), dict(r=0), dict(r=-1.), dict(theta=1.6), dict(theta=-1.7), dict(theta=3.)]),
    Fam('pyramid', ach.pyramid, dict(h=LEN, x=LEN, y=LEN), lambda L, h, x, y: b.pyramid(L, x/2, y/2, h),
        bad=[dict(x=0), dict(x=-1.), dict(y=0), dict(y=-1.), dict(h=0), dict(h=-1.)]),
]
for f in ACH:
    f.dens = True
    f.exact = 5


def reach(X):
    return np.sqrt((X**2).sum(1).max())


def reference(f, L, g):
    """moments per unit amount and the natural size of each row"""
    X, W = f.body(L, **g)
    q = o.rule_inner(L, (X, W))
    v = 1.0 if f.dens else W.sum()
    R = reach(X)
    ls = np.arange(L+1)
    s = np.sqrt((2*ls+1)/(4*PI))*R**ls*(W.sum()/v)
    return q/v, s[:, None]


# ---------------------------------------------------------------------------
# outer moments and numerically integrated moments
# ---------------------------------------------------------------------------
def graded(a, b, k=6):
    """subintervals of [a, b], refined towards zero when it is near"""
    lo, hi = min(abs(a), abs(b)), max(abs(a), abs(b))
    if a < 0 < b:
        return graded(a, 0, k)+graded(0, b, k)
    pts = {a, b}
    w = abs(b-a)
    for j in range(1, k):
        pts.add(a+w*2.0**-j if abs(a) < abs(b) else b-w*2.0**-j)
    pts = sorted(pts)
    return list(zip(pts[:-1], pts[1:]))


def ring(L, z0, z1, Ri, Ro, phic, phih, n=14, nph=None):
    """annular sector z0<z<z1 by composite rules (for irregular harmonics)"""
    nph = nph or 2*L+24
    ph, wp = o.gl_ab(nph, phic-phih, phic+phih)
    zz, rr = graded(z0, z1), graded(Ri, Ro)
    z, wz = (np.concatenate(v) for v in zip(*[o.gl_ab(n, *s) for s in zz]))
    r, wr = (np.concatenate(v) for v in zip(*[o.gl_ab(n, *s) for s in rr]))
    Z, R, Pp = np.meshgrid(z, r, ph, indexing='ij')
    w = wz[:, None, None]*(wr*r)[None, :, None]*wp[None, None, :]
    return np.stack([R*np.cos(Pp), R*np.sin(Pp), Z], -1).reshape(-1, 3), w.ravel()


def hollow_cone(L, H, IR, OR, phih, n=12):
    """0 < z < H (OR-r)/(OR-IR), IR<r<OR"""
    ph, wp = o.gl_ab(2*L+24, -phih, phih)
    rr = graded(IR, OR)
    r, wr = (np.concatenate(v) for v in zip(*[o.gl_ab(n, *s) for s in rr]))
    X, W = [], []
    top = H*(OR-r)/(OR-IR)
    for rk, wk, t in zip(r, wr, top):
        z, wz = (np.concatenate(v) for v in zip(*[o.gl_ab(n, *s) for s in graded(0, t)]))
        Z, Pp = np.meshgrid(z, ph, indexing='ij')
        X.append(np.stack([rk*np.cos(Pp), rk*np.sin(Pp), Z], -1).reshape(-1, 3))
        W.append((wk*rk*wz[:, None]*wp[None, :]).ravel())
    return np.concatenate(X), np.concatenate(W)


def trap(L, z0, z1, IR, OR, phih, n=12):
    """trapezoid with corners on the circles IR, OR at +-phih"""
    nph = 2*L+24
    ph, wp = o.gl_ab(nph, -phih, phih)
    z, wz = (np.concatenate(v) for v in zip(*[o.gl_ab(n, *s) for s in graded(z0, z1)]))
    t, wt = (np.concatenate(v) for v in zip(*[o.gl_ab(n, *s) for s in graded(IR, OR)]))
    Z, Tt, Pp = np.meshgrid(z, t, ph, indexing='ij')
    f = np.cos(phih)/np.cos(Pp)
    R = Tt*f
    w = wz[:, None, None]*wt[None, :, None]*wp[None, None, :]*R*f
    return np.stack([R*np.cos(Pp), R*np.sin(Pp), Z], -1).reshape(-1, 3), w.ravel()


def wedge(L, H, IR, OR, phih):
    """numerical cone_mom: same section as hollow_cone, IR may be zero"""
    n_ = n(L)+2
    r, wr = o.gl_ab(n_, IR, OR)
    ph, wp = o.gl_ab(2*L+24, -phih, phih)
    t, wt = o.gl_ab(n_, 0, 1)
    top = H*(OR-r)/(OR-IR)
    R, Tt, Pp = np.meshgrid(r, t, ph, indexing='ij')
    Z = Tt*top[:, None, None]
    w = (wr*r*top)[:, None, None]*wt[None, :, None]*wp[None, None, :]
    return np.stack([R*np.cos(Pp), R*np.sin(Pp), Z], -1).reshape(-1, 3), w.ravel()


def stein_x(L, r, R):
    """hole along z, large cylinder along x"""
    X, W = b.steinmetz(L, r, R)
    return np.stack([-X[:, 1], X[:, 0], X[:, 2]], 1), W


def hole_frame(L, t, r, theta):
    """tilted plate in the frame of the hole: |z - x tan| < t/(2 cos)"""
    n_ = n(L)+1
    h = t/np.cos(theta)
    u, wu = o.gl_ab(n_, -h/2, h/2)
    rho, wr = o.gl_ab(n_+1, 0, r)
    nph = 2*L+8
    ph = 2*PI*np.arange(nph)/nph
    U, R, Pp = np.meshgrid(u, rho, ph, indexing='ij')
    X = R*np.cos(Pp)
    w = wu[:, None, None]*(wr*rho)[None, :, None]*np.full(nph, 2*PI/nph)
    return np.stack([X, R*np.sin(Pp), U+X*np.tan(theta)], -1).reshape(-1, 3), w.ravel()


def pad(q, L):
    k = len(q)-1
    w = np.zeros((L+1, 2*L+1), complex)
    m = min(k, L)
    w[:m+1, L-m:L+m+1] = q[:m+1, k-m:k+m+1]
    return w
