"""Gauss-Legendre weighted point-mass generators."""
import numpy as np
from mc import solids
from mc.engine import explore
from mc.props.p04 import pairs, relations
import newt.gShapeGL as gl

PI = np.pi
EPS = 1e-9
D3 = [(1, 1, 1), (2, 3, 4), (4, 3, 2), (3, 5, 1), (1, 4, 6), (5, 1, 3), (7, 8, 6), (2, 2, 9), (12, 2, 3), (3, 17, 2)]
D2 = [(a, b) for a in (1, 2, 3, 4, 5, 8, 13, 16, 17) for b in (1, 2, 3, 6)]
BETAS = [0.2, PI/4, 1.3, PI/2, 2.0, 2.9, PI]
MASSES = [1.0, 2, -0.75, 1e-6]


def gcone(R, H):
    return ([[-R, R], [-R, R], [0, H]],
            lambda X: (X[:, 2]*R/H-np.hypot(X[:, 0], X[:, 1]))/R)


SOLID = {'rectangle': solids.rectangle, 'sphere': solids.sphere, 'annulus': solids.annulus,
         'cone': gcone, 'wedge': solids.wedge, 'tri_prism': solids.tri_prism}
SHAPES = {
    'rectangle': ([(1., 2., 3.), (2, 1, 4), (.1, 5., .3), (7, .2, .2)], D3),
    'sphere': ([(1.0,), (2,), (0.3,)], [(k,) for k in (1, 2, 3, 4, 5, 6, 8, 11, 16)]),
    'annulus': ([(0.5, 1., 2.), (0, 2, 1), (.9, 1., .1), (.2, 3., 7.)], D2),
    'cone': ([(1., 2.), (3, 1), (.2, .1), (1, 1)], D2),
    'wedge': ([(a, b, t, q) for a, b, t in ((.5, 1., 2.), (0, 2, 1), (.8, 1.5, .3)) for q in BETAS], D2),
    'tri_prism': ([(1., -1., 1., 2.), (2, 1, 3, 1), (1., -3., -1., .5), (.5, 0., 2., 1.), (.5, -2., 0, 1.), (2., -.3, 1.1, .2)], D3),
}
LARGE = {1: [(25,), (30,)], 2: [(40, 8), (3, 120), (61, 3)], 3: [(21, 22, 23), (1, 101, 90), (3, 2, 150)]}
NEAR = {
    'annulus': [(.97, 1., .5), (1e-4, 1., 1.)],
    'wedge': [(.5, 1., 2., b) for b in (PI/2-1e-3, PI/2+1e-3, PI-1e-3, PI/4+2e-4, .05)],
    'tri_prism': [(1., -.7, .7004, 1.), (1., 1e-4, .9, 2.), (1., -.9, 1e-4, 2.), (1., -.9, -1e-4, 2.), (1., .9, .95, 1.)],
    'cone': [(1., 30.), (30., 1.)], 'rectangle': [(1., 1.0004, 1.), (1., 1., 1.), (1., 1e-4, 1.)],
}
for _s, _p in NEAR.items():
    SHAPES[_s][0].extend(_p)
LENGTHS = {'rectangle': 3, 'sphere': 1, 'annulus': 3, 'cone': 2, 'wedge': 3, 'tri_prism': 4}
for _s, (_p, _n) in SHAPES.items():
    for _f, _k in ((1e-5, 0), (2.5e3, -1)):
        _p.append(tuple(v*_f if j < LENGTHS[_s] else v for j, v in enumerate(_p[_k])))
MORET = {1: [(k,) for k in range(6, 34) if k not in (6, 8, 11, 16)],
         2: [(a, b) for a in range(1, 25) for b in (1, 2, 4, 5, 9, 16) if (a, b) not in D2],
         3: [(a, b, c) for a in (1, 2, 3, 6, 9, 12) for b in (1, 2, 5, 8, 13) for c in (1, 3, 4, 7, 11) if (a, b, c) not in D3]}


def tasks(tier, seed):
    return [(tier, seed, s, i) for s in SHAPES for i in range(len(SHAPES[s][0]))]+[(tier, seed, k, s) for s in SHAPES for k in ('pairs', 'sweep', 'relations')]


def counts(n):
    return {1: lambda: (n[0],)*3, 2: lambda: (n[0], n[0], n[1]), 3: lambda: n}[len(n)]()


def legendre_nodes(n):
    """nodes and weights by Newton iteration on P_n (own implementation)"""
    k = np.arange(1, n+1)
    x = np.cos(PI*(k-.25)/(n+.5)).astype(np.longdouble)
    for _ in range(60):
        p0, p1 = np.ones_like(x), x.copy()
        for j in range(2, n+1):
            p0, p1 = p1, ((2*j-1)*x*p1-(j-1)*p0)/j
        if n == 1:
            dp = np.ones_like(x)
        else:
            dp = n*(x*p1-p0)/(x*x-1)
        dx = p1/dp
        x = x-dx
        if np.max(np.abs(dx)) < 1e-18:
            break
    w = 2/((1-x*x)*dp*dp) if n > 1 else np.array([2.0], dtype=np.longdouble)
    if n == 1:
        x = np.zeros(1)
    return x[::-1].astype(float), w[::-1].astype(float)


def expected(shape, p, n):
    box, slack = SOLID[shape](*p)
    ax, wt = [], []
    for b, k in zip(box, counts(n)):
        x, w = legendre_nodes(k)
        ax.append((b[0]+b[1])/2+(b[1]-b[0])/2*x)
        wt.append(w)
    G = np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)
    W = (wt[0][:, None, None]*wt[1][None, :, None]*wt[2][None, None, :]).ravel()
    s = slack(G)
    if np.any(np.abs(s) <= EPS):
        return None
    W, G = W[s > EPS], G[s > EPS]
    return np.concatenate([W[:, None]/W.sum(), G], 1)


def run(task, rec):
    tier, seed, shape, i = task
    if shape == 'pairs':
        return pairs(rec, gl, {s: v[0] for s, v in SHAPES.items()}, {s: len(v[1][0]) for s, v in SHAPES.items()}, i, expected)
    if shape == 'sweep':
        # every number of nodes in one direction
        k = len(SHAPES[i][1][0])
        N = list(range(1, 73))+[80, 99, 100, 101, 127, 128, 150, 200, 257]
        ns = {1: [(n,) for n in range(1, 25)], 2: [(3, n) for n in N]+[(n, 2) for n in N], 3: [t for n in N for t in ((2, 2, n), (3, n, 1), (n, 2, 1))]}[k]
        for j in (0, 1):
            grids(rec, i, SHAPES[i][0][j], ns, [1.0], seed, 'sweep ')
        return
    if shape == 'relations':
        pr = SHAPES[i][0]
        return relations(rec, i, pr, list(range(LENGTHS[i])), list(range(LENGTHS[i], len(pr[0]))), len(SHAPES[i][1][0]), grids, seed)
    p = SHAPES[shape][0][i]
    ns = list(SHAPES[shape][1])
    ns += LARGE[len(ns[0])]
    if tier == 'thorough':
        ns += MORET[len(ns[0])]
    grids(rec, shape, p, ns, MASSES, seed)


def grids(rec, shape, p, ns, masses, seed, tag=''):
    fn = getattr(gl, shape)
    box, slack = SOLID[shape](*p)
    size = max(max(abs(a), abs(b)) for a, b in box)
    info = {}

    def want(n):
        if n not in info:
            nn = counts(n)
            ax, wt = [], []
            for b, k in zip(box, nn):
                x, w = legendre_nodes(k)
                ax.append((b[0]+b[1])/2+(b[1]-b[0])/2*x)
                wt.append(w)
            G = np.stack(np.meshgrid(*ax, indexing='ij'), -1)
            W = wt[0][:, None, None]*wt[1][None, :, None]*wt[2][None, None, :]
            s = slack(G.reshape(-1, 3)).reshape(nn)
            info[n] = (ax, G, W, s > EPS, s >= -EPS)
        return info[n]

    def r(c):
        return rec.call(fn, c['mass'], *p, *c['n'], _case=[shape, str(c), p])

    def judge(c, got, case):
        case = [shape, p, case]
        ax, G, W, sure, may = want(c['n'])
        if not rec.check(isinstance(got, np.ndarray) and got.ndim == 2 and got.shape[1] == 4,
                         shape+': result is not an Nx4 array', case, str(np.shape(got))):
            return
        if not rec.check(np.all(np.isfinite(got)), shape+': non-finite', case):
            return
        ix = np.stack([np.argmin(np.abs(got[:, 1+k][:, None]-ax[k][None, :]), 1) for k in range(3)], 1)
        rec.close(got[:, 1:], G[tuple(ix.T)], shape+': not a Gauss-Legendre node', case, size, 1e-10)
        hit = np.zeros(G.shape[:3], int)
        np.add.at(hit, tuple(ix.T), 1)
        rec.check(hit.max() <= 1, shape+': node repeated', case)
        rec.check(not np.any((hit > 0) & ~may), shape+': node outside the solid', case, str(G[(hit > 0) & ~may][:3]))
        rec.check(not np.any((hit == 0) & sure), shape+': node of the solid missing', case, str(G[(hit == 0) & sure][:3]))
        w = W[tuple(ix.T)]
        rec.close(got[:, 0], c['mass']*w/w.sum(), shape+': weights', case, abs(c['mass']), 1e-11)
        rec.close(got[:, 0].sum(), c['mass'], shape+': total mass', case, None, 1e-11)
        if shape == 'rectangle':
            # exactness: every monomial up to degree 2n-1 in each axis
            n = c['n']
            L = np.array(p, float)/2
            u = got[:, 1:]/L
            for e in np.ndindex(*[min(2*k, 7) for k in n]):
                wantm = np.prod([0 if q % 2 else 1/(q+1) for q in e])
                rec.close((got[:, 0]*u[:, 0]**e[0]*u[:, 1]**e[1]*u[:, 2]**e[2]).sum(), c['mass']*wantm,
                          shape+': quadrature exactness', [case, e], abs(c['mass']), 1e-11)

    def mass_rel(c1, r1, c2, r2, case):
        rec.check(np.array_equal(r1[:, 1:], r2[:, 1:]), shape+': positions depend on the mass', [shape, p, case])
        rec.close(r1[:, 0]*c2['mass'], r2[:, 0]*c1['mass'], shape+': proportional to the mass', [shape, p, case], None, 1e-11)
    explore(rec, f'{tag}{shape} {p}', dict(mass=masses, n=ns), r, judge, {'mass': mass_rel},
            skip=lambda c: c['n'] in LARGE[len(c['n'])] and c['mass'] != 1.0 or not want(c['n'])[3].any(), order=seed)
