"""Uniform-grid point-mass generators."""
import numpy as np
from mc import solids
from mc.engine import explore, _copyres
import newt.glibShapes as gsh

PI = np.pi
EPS = 1e-9
NX = [1, 2, 3, 4, 7, 10]
NZ = [1, 2, 5]
N3 = [(1, 1, 1), (2, 3, 4), (4, 3, 2), (3, 5, 1), (1, 4, 6), (5, 1, 3), (7, 8, 6), (6, 7, 9)]
N2 = [(a, b) for a in NX for b in NZ]
BETAS = [0.2, PI/4, 1.3, PI/2, 2.0, 2.9, PI]
MASSES = [1.0, 2, -0.75, 1e-6]

SHAPES = {
    'sphere': ([(1.0,), (2,), (0.3,), (1e-4,)], [(k,) for k in (1, 2, 3, 4, 5, 8, 11)]),
    'rectangle': ([(1., 2., 3.), (2, 1, 4), (.1, 5., .3), (7, .2, .2), (1e-5, 2e-5, 3e-5)], N3+[(10, 12, 13)]),
    'annulus': ([(0.5, 1., 2.), (0, 2, 1), (.95, 1., .1), (.2, 3., 7.)], N2),
    'cone': ([(R, H, b) for R, H in ((1., 2.), (3, 1), (.2, .1)) for b in BETAS], N2),
    'wedge': ([(a, b, t, q) for a, b, t in ((.5, 1., 2.), (0, 2, 1), (.8, 1.5, .3)) for q in BETAS], N2),
    'trapezoid': ([(a, b, t, q) for a, b, t in ((.5, 1., 2.), (0, 2, 1), (.8, 1.5, .3)) for q in (.1, PI/6, PI/4, 1.2, 1.5)], N2),
    'outer_cone': ([(a, b, t, q) for a, b, t in ((.5, 1., 2.), (0, 2, 1), (.8, 1.5, .3)) for q in BETAS], N2),
    'tri_prism': ([(1., -1., 1., 2.), (2, 1, 3, 1), (1., -3., -1., .5), (.5, 0., 2., 1.), (.5, -2., 0, 1.), (2., -.3, 1.1, .2)], N3),
    'tetrahedron': ([(1., -1., 1., 2.), (2, 1, 3, 1), (1., -3., -1., .5), (.5, 0., 2., 1.), (.5, -2., 0, 1.), (2., -.3, 1.1, .2)], N3),
    'ngon_prism': ([(H, a, N) for H, a in ((1., 2.), (2, 1), (.1, .3)) for N in (3, 4, 5, 6, 7, 12)], N2),
    'pyramid': ([(1., 2., 3.), (2, 1, 1), (.1, .3, 2.), (3., 3., .2)], N3),
    'cylhole': ([(1., 2.), (1, 1), (.5, .51), (.1, 3.)], N2),
    'platehole': ([(t, r, q) for t, r in ((1., .5), (2, 1), (.1, 2.), (3., .2)) for q in (0., PI/6, -.9, 1.3, -PI/4)], N3),
}
MOREN = {1: [(k,) for k in (6, 9, 15, 16, 17, 21)], 2: [(12, 3), (15, 4), (16, 7), (17, 9), (25, 2), (33, 1)],
         3: [(9, 10, 11), (16, 15, 17), (20, 4, 3), (3, 33, 2), (2, 3, 40)]}
# large grids, for one mass only
LARGE = {1: [(25,), (30,)], 2: [(40, 8), (101, 1), (3, 1200)], 3: [(21, 22, 23), (40, 41, 7), (1, 101, 101), (3, 2, 1701)]}
# geometries close to the special ones
NEAR = {
    'annulus': [(.999, 1., .5), (1e-4, 1., 1.)],
    'cone': [(R, H, b) for R, H in ((1., 2.),) for b in (PI/2-1e-3, PI/2+1e-3, PI-1e-3, PI/4+2e-4, .02)],
    'wedge': [(.5, 1., 2., b) for b in (PI/2-1e-3, PI/2+1e-3, PI-1e-3, PI/4+2e-4, .02)],
    'trapezoid': [(.5, 1., 2., b) for b in (PI/2-1e-2, PI/4-1e-3, PI/4+2e-4, .02)],
    'outer_cone': [(.5, 1., 2., b) for b in (PI/2-1e-3, PI/2+1e-3, PI-1e-3, PI/4+2e-4, .02)]+[(.999, 1., .5, 1.), (1e-4, 1., .5, 1.)],
    'tri_prism': [(1., -.7, .7004, 1.), (1., 1e-4, .9, 2.), (1., -.9, 1e-4, 2.), (1., -.9, -1e-4, 2.), (1., .9, .91, 1.)],
    'tetrahedron': [(1., -.7, .7004, 1.), (1., 1e-4, .9, 2.), (1., -.9, 1e-4, 2.), (1., -.9, -1e-4, 2.), (1., .9, .91, 1.)],
    'ngon_prism': [(1., .3, 20), (1., .1, 60), (.2, .2, 31)],
    'pyramid': [(1., 1.0004, 1.), (1., .01, 1.), (.01, 1., 1.)],
    'cylhole': [(1., 1.0004), (1., 30.)],
    'platehole': [(1., .5, q) for q in (1e-3, -1e-3, 1e-5, 1.5, PI/4+2e-4)],
}


MORET = {1: [(k,) for k in range(12, 40) if k not in (15, 16, 17, 21)],
         2: [(a, b) for a in range(1, 26) for b in (1, 2, 3, 4, 6, 8) if (a, b) not in N2+MOREN[2]],
         3: [(a, b, c) for a in (1, 2, 3, 6, 9, 12) for b in (1, 2, 5, 8, 13) for c in (1, 3, 4, 7, 11)
             if (a, b, c) not in N3+MOREN[3]+[(10, 12, 13)]]}
# number of leading/other length parameters, for the rescaled copies
LENGTHS = {'sphere': [0], 'rectangle': [0, 1, 2], 'annulus': [0, 1, 2], 'cone': [0, 1], 'wedge': [0, 1, 2],
           'trapezoid': [0, 1, 2], 'outer_cone': [0, 1, 2], 'tri_prism': [0, 1, 2, 3], 'tetrahedron': [0, 1, 2, 3],
           'ngon_prism': [0, 1], 'pyramid': [0, 1, 2], 'cylhole': [0, 1], 'platehole': [0, 1]}
for _s, _p in NEAR.items():
    SHAPES[_s][0].extend(_p)
for _s, (_p, _n) in SHAPES.items():
    for _f, _k in ((1e-5, 0), (2.5e3, -1)):
        _p.append(tuple(v*_f if j in LENGTHS[_s] else v for j, v in enumerate(_p[_k])))


def counts(n):
    """full grid counts nx, ny, nz of one generator call"""
    return {1: lambda: (n[0],)*3, 2: lambda: (n[0], n[0], n[1]), 3: lambda: n}[len(n)]()


def tasks(tier, seed):
    return [(tier, seed, s, i) for s in SHAPES for i in range(len(SHAPES[s][0]))]+[(tier, seed, 'shell', k) for k in range(3)]+[(tier, seed, 'pairs', s) for s in SHAPES]+[(tier, seed, 'sweep', s) for s in SHAPES]+[(tier, seed, 'relations', s) for s in SHAPES]


FACTORS = [1, 1+1e-5, 1-1e-5, 2, .5, 3, 1e-2, 1e-3, 40., 1e3, -1, -.5, -2, 1+1e-3, 1/3, 10, .1]
ANGLES = [.01, .1, PI/6, PI/5, PI/4, PI/4-1e-5, PI/3, .5, 1, 1., 1.5, PI/2-1e-5, PI/2, PI/2+1e-5, 2, 3*PI/4, 2*PI/3, 3, PI-1e-5, PI]
NA = {1: [(4,), (7,)], 2: [(6, 5), (7, 2)], 3: [(5, 4, 3), (6, 2, 7)]}


def valid(shape, p):
    """the documented domain of each solid"""
    if shape in ('tri_prism', 'tetrahedron'):
        return p[0] > 0 and p[3] > 0 and p[1] < p[2]
    if any(v < 0 for j, v in enumerate(p) if not (shape == 'platehole' and j == 2)):
        return False
    if shape in ('annulus', 'wedge', 'trapezoid', 'outer_cone'):
        return p[0] < p[1]
    return shape != 'cylhole' or p[0] <= p[1]


def related(shape, base, lengths, angle):
    """every length in every ratio to every other one, every size and angle,
    and the types a number can have"""
    out = []
    for a in lengths:
        for b in lengths:
            for f in FACTORS:
                if a != b:
                    q = list(base)
                    q[b] = q[a]*f
                    out.append(tuple(q))
    for f in (1e-9, 1e-7, 1e-3, 30., 1e5, 1e9):
        out.append(tuple(v*f if j in lengths else v for j, v in enumerate(base)))
    for a in angle:
        for q in ANGLES:
            if shape == 'trapezoid' and q > PI/2-1e-2:
                continue
            for sg in ((1, -1) if shape == 'platehole' else (1,)):
                if shape == 'platehole' and q > 1.51:
                    continue
                p = list(base)
                p[a] = q*sg
                out.append(tuple(p))
    if shape == 'ngon_prism':
        out += [(*base[:2], k) for k in range(3, 41)]
    seen, keep = set(), []
    for p in out:
        if p not in seen and valid(shape, p):
            seen.add(p)
            keep.append(p)
    t = [tuple(f(v) for v in base) for f in ((lambda v: v if isinstance(v, int) else np.float64(v)), (lambda v: v if isinstance(v, int) else np.array(v)))]
    return keep+[p for p in t if valid(shape, p)]


def relations(rec, shape, params, lengths, angle, k, grids, seed):
    for base in [p for p in params if all(p[j] for j in lengths)][:2]:
        for p in related(shape, base, lengths, angle):
            grids(rec, shape, p, NA[k], [1.0], seed, 'relations ')
    ns = NA[k]+[tuple(np.int64(v) for v in NA[k][0])]
    grids(rec, shape, params[0], ns, [1e-12, 1e-9, 1e-4, .3, 50., 1e4, 1e9, -1e6, 3, np.float64(.7), np.array(2.5), np.int64(4)], seed, 'masses ')


def model(box, n):
    ax = [b[0]+(np.arange(k)+.5)*(b[1]-b[0])/k for b, k in zip(box, n)]
    return np.stack(np.meshgrid(*ax, indexing='ij'), -1)


def run(task, rec):
    tier, seed, shape, i = task
    if shape == 'shell':
        return shell(rec, tier, seed, i)
    if shape == 'pairs':
        return pairs(rec, gsh, {s: v[0] for s, v in SHAPES.items()}, {s: len(v[1][0]) for s, v in SHAPES.items()}, i, expected)
    if shape == 'sweep':
        # decimal dimensions against every number of cells in one direction:
        # quotients and sums that rounding puts next to a whole number
        base, k = SHAPES[i][0][0], len(SHAPES[i][1][0])
        N = list(range(1, 71))+[80, 99, 100, 101, 127, 128, 150, 200, 257, 1000]
        ns = {1: [(n,) for n in range(1, 25)], 2: [(3, n) for n in N]+[(n, 1) for n in range(1, 41)],
              3: [t for n in N for t in ((2, 2, n), (3, n, 1), (n, 2, 1))]}[k]
        for f in (.3, .7, .1, 1.1, .035):
            grids(rec, i, tuple(v*f if j in LENGTHS[i] else v for j, v in enumerate(base)), ns, [1.0], seed, 'sweep ')
        return
    if shape == 'relations':
        pr = SHAPES[i][0]
        angle = [j for j in range(len(pr[0])) if j not in LENGTHS[i] and i != 'ngon_prism']
        return relations(rec, i, pr, LENGTHS[i], angle, len(SHAPES[i][1][0]), grids, seed)
    p = SHAPES[shape][0][i]
    ns = list(SHAPES[shape][1])
    ns += MOREN[len(ns[0])]
    ns += LARGE[len(ns[0])]
    if tier == 'thorough':
        ns += MORET[len(ns[0])]
    grids(rec, shape, p, ns, MASSES, seed)


def grids(rec, shape, p, ns, masses, seed, tag=''):
    fn = getattr(gsh, shape)
    box, slack = getattr(solids, shape)(*p)
    size = max(max(abs(a), abs(b)) for a, b in box)
    info = {}

    def want(n):
        if n not in info:
            nn = counts(n)
            G = model(box, nn)
            s = slack(G.reshape(-1, 3)).reshape(nn)
            info[n] = (G, s > EPS, s >= -EPS)
        return info[n]

    def r(c):
        return rec.call(fn, c['mass'], *p, *c['n'], _case=[shape, str(c), p])

    def judge(c, got, case):
        case = [shape, p, case]
        G, sure, may = want(c['n'])
        if not rec.check(isinstance(got, np.ndarray) and got.ndim == 2 and got.shape[1] == 4,
                         shape+': result is not an Nx4 array', case, str(np.shape(got))):
            return
        if not rec.check(np.all(np.isfinite(got)), shape+': non-finite', case):
            return
        nn = np.array(counts(c['n']))
        lo = np.array([b[0] for b in box], float)
        st = np.array([(b[1]-b[0]) for b in box], float)/nn
        ix = np.rint((got[:, 1:]-lo)/st-.5).astype(int)
        if not rec.check(np.all((ix >= 0) & (ix < nn)), shape+': point outside the bounding box', case, str(got[:3])):
            return
        rec.close(got[:, 1:], G[tuple(ix.T)], shape+': not a cell centre of the grid', case, size, 1e-9)
        hit = np.zeros(tuple(nn), int)
        np.add.at(hit, tuple(ix.T), 1)
        rec.check(hit.max() <= 1, shape+': point repeated', case)
        rec.check(not np.any((hit > 0) & ~may), shape+': point outside the solid', case,
                  str(G[(hit > 0) & ~may][:3]))
        rec.check(not np.any((hit == 0) & sure), shape+': point of the solid missing', case,
                  str(G[(hit == 0) & sure][:3]))
        rec.close(got[:, 0], np.full(len(got), c['mass']/len(got)), shape+': masses', case, None, 1e-10)
        rec.close(got[:, 0].sum(), c['mass'], shape+': total mass', case, None, 1e-10)

    def mass_rel(c1, r1, c2, r2, case):
        rec.check(np.array_equal(r1[:, 1:], r2[:, 1:]), shape+': positions depend on the mass', [shape, p, case])
        rec.close(r1[:, 0]*c2['mass'], r2[:, 0]*c1['mass'], shape+': proportional to the mass', [shape, p, case], None, 1e-11)
    explore(rec, f'{tag}{shape} {p}', dict(mass=masses, n=ns), r, judge, {'mass': mass_rel},
            skip=lambda c: c['n'] in LARGE[len(c['n'])] and c['mass'] != 1.0 or not want(c['n'])[1].any(), order=seed)


def expected(shape, p, n):
    box, slack = getattr(solids, shape)(*p)
    G = model(box, counts(n)).reshape(-1, 3)
    s = slack(G)
    if np.any(np.abs(s) <= EPS):
        return None
    G = G[s > EPS]
    return np.concatenate([np.full((len(G), 1), 1/len(G)), G], 1)


def moments(a):
    return np.concatenate([[a[:, 0].sum()], a[:, 0] @ a[:, 1:], (a[:, 0] @ a[:, 1:]**2)])


def pairs(rec, mod, params, nargs, second, expected):
    """histories of two calls: every generator before every other one with the
    same numbers of points, in the same process"""
    for n in ((5, 4, 3), (6, 3, 6), (7, 7, 2)):
        for p2 in (params[second][0], params[second][1]):
            a2 = (2.0, *p2, *n[:nargs[second]])
            ref = rec.call(getattr(mod, second), *a2, _case=['pairs', second])
            ref = np.copy(ref)
            w = expected(second, p2, a2[-nargs[second]:])
            if w is not None:
                w = moments(w)*2
                rec.close(moments(ref), w, second+': mass and moments', ['pairs', a2], np.max(np.abs(w)), 1e-9)
            for first in params:
                a1 = (-1.5, *params[first][0], *n[:nargs[first]])
                if nargs[first] == 2:
                    a1 = (-1.5, *params[first][0], n[0], n[2])
                case = [first, a1, second, a2]
                rec.state(case)
                rec.trans()
                rec.trace()
                r1 = rec.call(getattr(mod, first), *a1, _case=case)
                r2 = rec.call(getattr(mod, second), *a2, _case=case)
                rec.check(np.array_equal(r2, ref), second+' after '+first+' differs', case)
                if isinstance(r1, np.ndarray) and r1.size and r1.flags.writeable:
                    r1 *= 3
                r2 = rec.call(getattr(mod, second), *a2, _case=case)
                rec.check(np.array_equal(r2, ref), second+' after '+first+' differs', case)
                if isinstance(r2, np.ndarray):
                    r2 *= 7


def shell(rec, tier, seed, i):
    """random spherical shell under a controlled source of randomness: the
    uniform deviates run over a full lattice of the unit square"""
    real = np.random.rand
    try:
        for m in ([4, 9, 16] if tier == 'quick' else [4, 9, 16, 33, 64]):
            e = [0.0, 1e-12, .5, 1-1e-12] if i == 1 else []
            g = np.concatenate([(np.arange(m)+.5)/m, e])
            lat = np.stack(np.meshgrid(g, g, indexing='ij'), -1).reshape(-1, 2)
            for R in (1.0, 2, 1e-3):
                for mass in (1.0, -2.5, 3):
                    N = int(np.ceil(len(lat)*np.pi/4))+3
                    asked = []

                    def rand(*shape):
                        asked.append(shape)
                        if len(shape) == 2 and shape[1] == 2:
                            k = shape[0]
                            return np.concatenate([lat]*(1+k//len(lat)))[:k].copy()
                        return real(*shape)
                    if i < 2:
                        np.random.rand = rand
                    else:
                        np.random.seed(m+seed)
                    got = rec.call(gsh.spherical_random_shell, mass, R, N, _case=(mass, R, N))
                    np.random.rand = real
                    case = ('shell', i, m, R, mass)
                    rec.state(case)
                    rec.trace()
                    rec.trans(len(got))
                    rec.close(np.sqrt((got[:, 1:]**2).sum(1)), np.full(len(got), R), 'shell: radius', case, R, 1e-12)
                    rec.close(got[:, 0], np.full(len(got), mass/len(got)), 'shell: equal masses', case, None, 1e-12)
                    rec.check(i == 1 or N*0.5 < len(got) < N*1.7, 'shell: number of points', case, str((len(got), N)))
                    if m >= 16 and i == 0:
                        u = got[:, 1:]/R
                        rec.close(u.mean(0), np.zeros(3), 'shell: uniformity', case, 1, .05)
                        rec.close(u.T @ u/len(u), np.eye(3)/3, 'shell: uniformity', case, 1, .05)
    finally:
        np.random.rand = real
