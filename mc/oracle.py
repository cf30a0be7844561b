"""Independent reference mathematics used as oracle by every check.

Nothing in this file imports code from the repository.  The conventions are
those the documentation of the toolkit states:

  inner moment   q_lm = sum_i m_i r_i^l conj(Y_lm(r_i))
  outer moment   Q_lm = sum_i m_i Y_lm(r_i) / r_i^(l+1)

stored in an (L+1) x (2L+1) complex array, order m in column L+m.
Y_lm is the orthonormal complex spherical harmonic with Condon-Shortley phase.
"""
import math
from fractions import Fraction
from functools import lru_cache
import numpy as np

BIG_G = 6.67428e-11
FACT = [math.factorial(k) for k in range(170)]


# --------------------------------------------------------------------------
# solid harmonics
# --------------------------------------------------------------------------
def R_all(L, xyz):
    """R_l^m = r^l P_l^m e^{im phi}/(l+m)!  -> array (npts, L+1, 2L+1)."""
    xyz = np.atleast_2d(np.asarray(xyz, dtype=float))
    n = len(xyz)
    x, y, z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
    w = x + 1j*y
    r2 = x*x + y*y + z*z
    R = np.zeros((n, L+1, 2*L+1), dtype=complex)
    R[:, 0, L] = 1
    for m in range(1, L+1):
        R[:, m, L+m] = -w/(2*m)*R[:, m-1, L+m-1]
    for m in range(0, L+1):
        for l in range(m+1, L+1):
            v = (2*l-1)*z*R[:, l-1, L+m]
            if l-2 >= m:
                v = v - r2*R[:, l-2, L+m]
            R[:, l, L+m] = v/((l+m)*(l-m))
    for m in range(1, L+1):
        R[:, :, L-m] = (-1)**m*np.conj(R[:, :, L+m])
    return R


def S_all(L, xyz):
    """S_l^m = (l-m)! P_l^m e^{im phi}/r^{l+1} -> array (npts, L+1, 2L+1)."""
    xyz = np.atleast_2d(np.asarray(xyz, dtype=float))
    n = len(xyz)
    x, y, z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
    w = x + 1j*y
    r2 = x*x + y*y + z*z
    S = np.zeros((n, L+1, 2*L+1), dtype=complex)
    S[:, 0, L] = 1/np.sqrt(r2)
    for m in range(1, L+1):
        S[:, m, L+m] = -(2*m-1)*w/r2*S[:, m-1, L+m-1]
    for m in range(0, L+1):
        for l in range(m+1, L+1):
            v = (2*l-1)*z*S[:, l-1, L+m]
            if l-2 >= m:
                v = v - ((l-1)**2-m*m)*S[:, l-2, L+m]
            S[:, l, L+m] = v/r2
    for m in range(1, L+1):
        S[:, :, L-m] = (-1)**m*np.conj(S[:, :, L+m])
    return S


@lru_cache(None)
def _norms(L):
    """factors: r^l Y_lm = nR[l,m] R_lm ;  Y_lm/r^(l+1) = nS[l,m] S_lm."""
    nR = np.zeros((L+1, 2*L+1))
    nS = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        for m in range(-l, l+1):
            N = math.sqrt((2*l+1)/(4*math.pi))
            nR[l, L+m] = N*math.sqrt(FACT[l-m]*FACT[l+m])
            nS[l, L+m] = N/math.sqrt(FACT[l-m]*FACT[l+m])
    return nR, nS


def inner_basis(L, xyz):
    return np.conj(R_all(L, xyz))*_norms(L)[0]


def outer_basis(L, xyz):
    return S_all(L, xyz)*_norms(L)[1]


def inner(L, pts):
    pts = np.atleast_2d(np.asarray(pts, dtype=float))
    return np.tensordot(pts[:, 0], inner_basis(L, pts[:, 1:4]), axes=(0, 0))


def outer(L, pts):
    pts = np.atleast_2d(np.asarray(pts, dtype=float))
    return np.tensordot(pts[:, 0], outer_basis(L, pts[:, 1:4]), axes=(0, 0))


def mod_bessel_i(l, x):
    """modified spherical Bessel function of the first kind, by power series
    (independent of scipy), accurate for 0 <= x < ~60."""
    x = np.asarray(x, dtype=float)
    dfac = 1.0
    for k in range(1, l+1):
        dfac *= 2*k+1
    s = np.ones_like(x)
    t = np.ones_like(x)
    h = x*x/2
    for k in range(1, 400):
        t = t*h/(k*(2*l+2*k+1))
        s = s+t
        if np.all(t <= 1e-18*s):
            break
    return x**l/dfac*s


def inner_yuk(L, lmbd, pts):
    """sum m i_l(r/lambda) conj(Y_lm)"""
    pts = np.atleast_2d(np.asarray(pts, dtype=float))
    r = np.sqrt((pts[:, 1:4]**2).sum(1))
    unit = pts[:, 1:4].copy()
    ok = r > 0
    unit[ok] = unit[ok]/r[ok][:, None]
    unit[~ok] = [0, 0, 1.]
    B = inner_basis(L, unit)
    out = np.zeros((L+1, 2*L+1), dtype=complex)
    for l in range(L+1):
        il = mod_bessel_i(l, r/lmbd)
        out[l] = np.tensordot(pts[:, 0]*il, B[:, l, :], axes=(0, 0))
    return out


# --------------------------------------------------------------------------
# translations (addition theorems for R and S)
# --------------------------------------------------------------------------
@lru_cache(None)
def _valid(L):
    v = np.zeros((L+1, 2*L+1), dtype=bool)
    for l in range(L+1):
        v[l, L-l:L+l+1] = True
    return v


def _to_R(q):
    """inner moments -> sum m R_lm  (un-normalised, not conjugated)"""
    L = len(q)-1
    nR = _norms(L)[0]
    out = np.zeros_like(q, dtype=complex)
    v = _valid(L)
    out[v] = np.asarray(q, dtype=complex)[v]/nR[v]
    return np.conj(out)


def translate_inner(q, d, Lout=None):
    """inner moments about the same origin after every mass moved by d
    (exact for every degree <= L)."""
    q = np.asarray(q, dtype=complex)
    L = len(q)-1
    # work with conjugated R (moments of conj R); hermiticity not assumed
    A = np.zeros_like(q)
    v = _valid(L)
    A[v] = q[v]/_norms(L)[0][v]
    T = np.conj(R_all(L, [d])[0])
    out = np.zeros_like(q)
    for l in range(L+1):
        for m in range(-l, l+1):
            s = 0
            for k in range(l+1):
                for mu in range(max(-k, m-(l-k)), min(k, m+(l-k))+1):
                    s += T[k, L+mu]*A[l-k, L+m-mu]
            out[l, L+m] = s*_norms(L)[0][l, L+m]
    return out


def translate_outer(Q, d):
    """truncated outer -> outer translation: masses at b moved to b+d, |d|<|b|;
    series truncated at the degree L of the given moments."""
    Q = np.asarray(Q, dtype=complex)
    L = len(Q)-1
    v = _valid(L)
    A = np.zeros_like(Q)
    A[v] = Q[v]/_norms(L)[1][v]
    T = np.conj(R_all(L, [d])[0])
    out = np.zeros_like(Q)
    for l in range(L+1):
        for m in range(-l, l+1):
            s = 0
            for k in range(L-l+1):
                for mu in range(-k, k+1):
                    if abs(m+mu) <= l+k:
                        s += (-1)**k*T[k, L+mu]*A[l+k, L+m+mu]
            out[l, L+m] = s*_norms(L)[1][l, L+m]
    return out


def translate_in2out(q, d):
    """truncated inner -> outer: masses at a moved to a+d, |a|<|d|;
    outer moments up to L of the given inner moments (degrees <= L)."""
    q = np.asarray(q, dtype=complex)
    L = len(q)-1
    v = _valid(L)
    A = np.zeros_like(q)
    A[v] = q[v]/_norms(L)[0][v]        # sum m conj(R)(a)
    S = S_all(2*L, [d])[0]
    out = np.zeros_like(q)
    for l in range(L+1):
        for m in range(-l, l+1):
            s = 0
            for k in range(L+1):
                for mu in range(-k, k+1):
                    if abs(m+mu) <= l+k:
                        s += (-1)**k*A[k, L+mu]*S[l+k, 2*L+m+mu]
            out[l, L+m] = s*_norms(L)[1][l, L+m]
    return out


# --------------------------------------------------------------------------
# rotations
# --------------------------------------------------------------------------
def Rz(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]])


def Ry(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s], [0, 1., 0], [-s, 0, c]])


def Rx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1., 0, 0], [0, c, -s], [0, s, c]])


def euler_zyz(a, b, g):
    """z-y-z Euler rotation: rotate by g about z, then b about y, then a about
    z (fixed axes)."""
    return Rz(a) @ Ry(b) @ Rz(g)


def axis_angle(axis, t):
    """rotation by t about axis, via quaternion (independent of Rodrigues)."""
    u = np.asarray(axis, float)
    u = u/math.sqrt(float(u@u))
    w = math.cos(t/2)
    x, y, z = math.sin(t/2)*u
    return np.array([
        [1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)],
        [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)],
        [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])


@lru_cache(None)
def sphere_rule(L):
    """product quadrature on the sphere exact to degree 2L+1."""
    n = L+2
    t, w = np.polynomial.legendre.leggauss(n)
    nph = 2*L+4
    ph = 2*np.pi*np.arange(nph)/nph
    T, P = np.meshgrid(t, ph, indexing='ij')
    st = np.sqrt(1-T**2)
    pts = np.stack([st*np.cos(P), st*np.sin(P), T], -1).reshape(-1, 3)
    W = (w[:, None]*np.ones(nph)*2*np.pi/nph).ravel()
    return pts, W


@lru_cache(None)
def _Ybasis(L):
    pts, W = sphere_rule(L)
    return np.conj(inner_basis(L, pts)), pts, W


def rot_matrices(L, Rm):
    """list of matrices M_l with  q'_l = M_l q_l for inner moments when every
    mass is moved x -> Rm x.  Obtained by projection with a quadrature rule
    that is exact for these degrees (no Wigner formula involved)."""
    Y, pts, W = _Ybasis(L)
    Yr = np.conj(inner_basis(L, pts @ np.asarray(Rm).T))   # Y(R x)
    out = []
    for l in range(L+1):
        a = np.conj(Yr[:, l, L-l:L+l+1])          # conj Y_m'(Rx)
        b = Y[:, l, L-l:L+l+1]                     # Y_m(x)
        # conj Y_m'(Rx) = sum_m M_{m'm} conj Y_m(x)
        out.append(np.einsum('k,ka,kb->ab', W, a, b))
    return out


def rotate_inner(q, Rm):
    L = len(q)-1
    Ms = rot_matrices(L, Rm)
    out = np.zeros_like(np.asarray(q, dtype=complex))
    for l in range(L+1):
        out[l, L-l:L+l+1] = Ms[l] @ np.asarray(q)[l, L-l:L+l+1]
    return out


def rotate_outer(Q, Rm):
    L = len(Q)-1
    Ms = rot_matrices(L, Rm)
    out = np.zeros_like(np.asarray(Q, dtype=complex))
    for l in range(L+1):
        out[l, L-l:L+l+1] = np.conj(Ms[l]) @ np.asarray(Q)[l, L-l:L+l+1]
    return out


# --------------------------------------------------------------------------
# Clebsch-Gordan, exact
# --------------------------------------------------------------------------
def cg_exact(j1, j2, m1, m2, J, M):
    """(sign, squared value as Fraction) of <j1 m1 j2 m2|J M>, integer spins,
    Racah's formula in exact integer arithmetic."""
    if m1+m2 != M or abs(m1) > j1 or abs(m2) > j2 or abs(M) > J:
        return 0, Fraction(0)
    if J > j1+j2 or J < abs(j1-j2):
        return 0, Fraction(0)
    f = math.factorial
    pre = Fraction((2*J+1)*f(J+j1-j2)*f(J-j1+j2)*f(j1+j2-J), f(j1+j2+J+1))
    pre *= f(J+M)*f(J-M)*f(j1-m1)*f(j1+m1)*f(j2-m2)*f(j2+m2)
    s = Fraction(0)
    for k in range(0, j1+j2-J+1):
        a = [j1+j2-J-k, j1-m1-k, j2+m2-k, J-j2+m1+k, J-j1-m2+k]
        if min(a) < 0:
            continue
        d = f(k)
        for t in a:
            d *= f(t)
        s += Fraction((-1)**k, d)
    sg = (s > 0)-(s < 0)
    return sg, pre*s*s


# --------------------------------------------------------------------------
# interaction energy / force / torque between point sets
# --------------------------------------------------------------------------
def pair_force(m1, m2, law=None, G=BIG_G):
    """force on m1 and torque about the origin, plain double loop with math.
    law(r) returns |F|/(G m1 m2) attraction."""
    F = [0.0, 0.0, 0.0]
    T = [0.0, 0.0, 0.0]
    for a in m1:
        for b in m2:
            d = [float(b[k])-float(a[k]) for k in (1, 2, 3)]
            r = math.sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2])
            g = G*float(a[0])*float(b[0])*(1/r**2 if law is None else law(r))
            f = [g*t/r for t in d]
            x = [float(t) for t in a[1:4]]
            T[0] += x[1]*f[2]-x[2]*f[1]
            T[1] += x[2]*f[0]-x[0]*f[2]
            T[2] += x[0]*f[1]-x[1]*f[0]
            for k in range(3):
                F[k] += f[k]
    return np.array(F), np.array(T)


# --------------------------------------------------------------------------
# exact integrals of solid harmonics over bodies (unit density)
# --------------------------------------------------------------------------
@lru_cache(None)
def gl(n):
    return np.polynomial.legendre.leggauss(n)


def gl_ab(n, a, b):
    t, w = gl(n)
    return a+(b-a)*(t+1)/2, w*(b-a)/2


def box_rule(n, a, b):
    """quadrature of prod [a_i,b_i]; exact for degree 2n-1 per axis."""
    xs = [gl_ab(n, a[i], b[i]) for i in range(3)]
    X = np.stack(np.meshgrid(xs[0][0], xs[1][0], xs[2][0], indexing='ij'), -1)
    W = xs[0][1][:, None, None]*xs[1][1][None, :, None]*xs[2][1][None, None, :]
    return X.reshape(-1, 3), W.ravel()


def tet_rule(n, v):
    """quadrature on the tetrahedron with vertices v (4x3), signed volume
    ignored; Duffy map, exact for degree 2n-3."""
    u, w = gl_ab(n, 0., 1.)
    U, V, S = np.meshgrid(u, u, u, indexing='ij')
    W = w[:, None, None]*w[None, :, None]*w[None, None, :]
    l1 = U
    l2 = (1-U)*V
    l3 = (1-U)*(1-V)*S
    jac = (1-U)**2*(1-V)
    v = np.asarray(v, float)
    e = v[1:]-v[0]
    X = v[0]+l1[..., None]*e[0]+l2[..., None]*e[1]+l3[..., None]*e[2]
    det = abs(np.linalg.det(e))
    return X.reshape(-1, 3), (W*jac*det).ravel()


def tri_prism_rule(n, tri, z0, z1):
    """prism over the triangle tri (3x2) between z0 and z1."""
    u, w = gl_ab(n, 0., 1.)
    z, wz = gl_ab(n, z0, z1)
    U, V, Z = np.meshgrid(u, u, z, indexing='ij')
    W = w[:, None, None]*w[None, :, None]*wz[None, None, :]
    l1 = U
    l2 = (1-U)*V
    t = np.asarray(tri, float)
    e = t[1:]-t[0]
    X = t[0]+l1[..., None]*e[0]+l2[..., None]*e[1]
    det = abs(e[0, 0]*e[1, 1]-e[0, 1]*e[1, 0])
    P = np.concatenate([X, Z[..., None]], -1)
    return P.reshape(-1, 3), (W*(1-U)*det).ravel()


def polar_rule(n, rho_lo, rho_hi, z0, z1, ph0, ph1, nphi=None, zmap=None):
    """{rho_lo(z)<rho<rho_hi(z), z0<z<z1, ph0<phi<ph1}.  rho_* callables of z.
    Exact in rho and z for polynomial bounds (degree ok), spectrally accurate
    in phi."""
    nphi = nphi or n+14
    t, wt = gl(n)
    z, wz = gl_ab(n, z0, z1)
    ph, wp = gl_ab(nphi, ph0, ph1)
    lo = np.array([rho_lo(c) for c in z])
    hi = np.array([rho_hi(c) for c in z])
    rho = lo[:, None]+(hi-lo)[:, None]*(t+1)[None, :]/2
    wr = rho*(hi-lo)[:, None]*wt[None, :]/2
    Rr = rho[:, :, None]
    X = np.stack(np.broadcast_arrays(Rr*np.cos(ph), Rr*np.sin(ph),
                                     z[:, None, None]+0*Rr*ph), -1)
    W = wz[:, None, None]*wr[:, :, None]*wp[None, None, :]
    return X.reshape(-1, 3), W.ravel()


def ball_rule(n, R0, R1):
    u, w = gl_ab(n, R0, R1)
    pts, W = sphere_rule(n)
    X = u[:, None, None]*pts[None]
    return X.reshape(-1, 3), ((w*u*u)[:, None]*W[None]).ravel()


def concat(*rules):
    return (np.concatenate([r[0] for r in rules]),
            np.concatenate([r[1] for r in rules]))


def rule_inner(L, rule, chunk=None):
    X, W = rule
    chunk = chunk or max(500, int(4e6/((L+1)*(2*L+1))))
    out = 0
    for k in range(0, len(W), chunk):
        out = out+np.tensordot(W[k:k+chunk], inner_basis(L, X[k:k+chunk]),
                               axes=(0, 0))
    return out


def rule_outer(L, rule, chunk=None):
    X, W = rule
    chunk = chunk or max(500, int(4e6/((L+1)*(2*L+1))))
    out = 0
    for k in range(0, len(W), chunk):
        out = out+np.tensordot(W[k:k+chunk], outer_basis(L, X[k:k+chunk]),
                               axes=(0, 0))
    return out


def rule_volume(rule):
    return float(rule[1].sum())


def rule_com(rule):
    return (rule[0]*rule[1][:, None]).sum(0)/rule[1].sum()


def herm_ok(q, tol=1e-10):
    """Structural conditions: zeros outside |m|<=l and q(l,-m)=(-1)^m q*"""
    q = np.asarray(q)
    L = len(q)-1
    if q.shape != (L+1, 2*L+1):
        return 'shape %r' % (q.shape,)
    v = _valid(L)
    if np.any(q[~v] != 0):
        return 'nonzero outside |m|<=l'
    sc = np.abs(q).max(axis=1)+1e-300
    ms = np.arange(-L, L+1)
    d = np.abs(q-np.conj(q[:, ::-1])*(-1.0)**np.abs(ms))
    if np.any(d > tol*sc[:, None]):
        return 'hermiticity broken'
    return None


def hermitian_basis(L):
    """the real basis of the space of hermitian moment arrays of degree L"""
    out = []
    for l in range(L+1):
        for m in range(l+1):
            for ph in ((1,) if m == 0 else (1, 1j)):
                q = np.zeros((L+1, 2*L+1), dtype=complex)
                q[l, L+m] = ph
                if m:
                    q[l, L-m] = (-1)**m*np.conj(ph)
                out.append(((l, m, 'im' if ph == 1j else 're'), q))
    return out
