"""Membership functions and bounding boxes of the documented solids.

Each entry: f(params) -> (box [[x0,x1],[y0,y1],[z0,z1]], slack) where
slack(X) > 0 inside, < 0 outside, in units of the size of the solid."""
import numpy as np

PI = np.pi


def _ang(X, beta, size):
    """slack of |atan2(y,x)| <= beta, as a distance"""
    x, y = X[:, 0], X[:, 1]
    if beta >= PI:
        return np.full(len(X), np.inf)
    q = np.abs(np.arctan2(y, x))
    r = np.hypot(x, y)
    d = np.abs(q-beta)
    dist = np.where(d < PI/2, r*np.sin(d), r)
    # nearest of the two half planes; on the axis the angle is atan2(0,0)=0
    return np.where(q <= beta, dist, -dist)/size


def _mn(*a):
    return np.min(np.broadcast_arrays(*a), axis=0)


def _rho(X):
    return np.hypot(X[:, 0], X[:, 1])


def _secbox(beta, r1, r2):
    if beta < PI/2:
        return [[np.cos(beta)*r1, r2], [-np.sin(beta)*r2, np.sin(beta)*r2]]
    return [[np.cos(beta)*r2, r2], [-r2, r2]]


def sphere(R):
    return [[-R, R]]*3, lambda X: (R-np.sqrt((X**2).sum(1)))/R


def rectangle(x, y, z):
    return [[-x/2, x/2], [-y/2, y/2], [-z/2, z/2]], lambda X: np.ones(len(X))


def annulus(r1, r2, t):
    return ([[-r2, r2], [-r2, r2], [-t/2, t/2]],
            lambda X: _mn(r2-_rho(X), _rho(X)-r1 if r1 > 0 else np.inf)/r2)


def cone(R, H, beta):
    return (_secbox(beta, 0., R)+[[0, H]],
            lambda X: _mn((R*(1-X[:, 2]/H)-_rho(X))/R, _ang(X, beta, R)))


def wedge(r1, r2, t, beta):
    return (_secbox(beta, r1, r2)+[[-t/2, t/2]],
            lambda X: _mn((r2-_rho(X))/r2, (_rho(X)-r1)/r2 if r1 > 0 else np.inf, _ang(X, beta, r2)))


def trapezoid(r1, r2, t, beta):
    c, s = np.cos(beta), np.sin(beta)
    return ([[r1*c, r2*c], [-r2*s, r2*s], [-t/2, t/2]],
            lambda X: (X[:, 0]*s-np.abs(X[:, 1])*c)/r2)


def outer_cone(r1, r2, H, beta):
    return (_secbox(beta, r1, r2)+[[0, H]],
            lambda X: _mn((r2-X[:, 2]*(r2-r1)/H-_rho(X))/r2, (_rho(X)-r1)/r2 if r1 > 0 else np.inf, _ang(X, beta, r2)))


def tri_prism(d, y1, y2, t):
    w = max(abs(y1), abs(y2), abs(d))
    return ([[0, d], [min(0, y1), max(0, y2)], [-t/2, t/2]],
            lambda X: _mn(X[:, 1]*d-X[:, 0]*y1, X[:, 0]*y2-X[:, 1]*d)/w**2)


def tetrahedron(x, y1, y2, z):
    w = max(abs(y1), abs(y2), abs(x))
    return ([[0, x], [min(0, y1), max(0, y2)], [0, z]],
            lambda X: _mn((X[:, 1]*x-X[:, 0]*y1)/w**2, (X[:, 0]*y2-X[:, 1]*x)/w**2, 1-X[:, 0]/x-X[:, 2]/z))


def ngon_prism(H, a, N):
    b = a/(2*np.tan(PI/N))
    d = a/(2*np.sin(PI/N))

    def slack(X):
        s = np.full(len(X), np.inf)
        for k in range(N):
            s = np.minimum(s, b-(X[:, 0]*np.cos(2*PI*k/N)+X[:, 1]*np.sin(2*PI*k/N)))
        return s/d
    return [[-d, d], [-d, d], [-H/2, H/2]], slack


def pyramid(x, y, z):
    return ([[-x, x], [-y, y], [0, z]],
            lambda X: 1-X[:, 2]/z-np.maximum(np.abs(X[:, 0])/x, np.abs(X[:, 1])/y))


def cylhole(r, R):
    return ([[-r, r], [-r, r], [-R, R]],
            lambda X: _mn((r-_rho(X))/r, (R-np.hypot(X[:, 0], X[:, 2]))/R))


def platehole(t, r, theta):
    c, s = np.cos(theta), np.tan(theta)
    w = r/c+t*abs(s)/2
    return ([[-w, w], [-r, r], [-t/2, t/2]],
            lambda X: (r**2-X[:, 1]**2-((X[:, 0]-X[:, 2]*s)*c)**2)/r**2)
