"""CAD bodies."""
import itertools
import os
import tempfile
import numpy as np
import cadquery as cq
from mc import oracle as o
from mc import bodies as b
from mc import families as F
from mc.engine import bfs, canon
import newt.genCAD as gc

PI = np.pi
ASSUME = ['the geometry kernel (OpenCASCADE through CadQuery) is trusted to 1e-5 on curved bodies and 1e-7 on polyhedra',
          'bodies of positive mass are listed before those of negative mass and the sum is positive, as documented']
A = (0., .7, -2., PI/2, 4.)
H = (.3, .8, PI/2, 2.5, PI)


def rz(r, a):
    return b.rot_z(r, a)


# name: (alphabets, validity, body, vertices of a polyhedron or None)
def verts(pts, z=None, phic=0.):
    p = np.array(pts, float)
    if z is not None:
        p = np.array([(x, y, s) for x, y in pts for s in (-z, z)], float)
    return p @ o.Rz(phic).T


BODIES = {
    'sphere': (dict(R=(.5, 1, 2.2)), None, lambda R: b.ball(2, R), None),
    'cylinder': (dict(H=(.3, 1, 2.5), R=(.5, 1, 1.7)), None, lambda H, R: b.annulus(2, H, 0, R, 0, PI), None),
    'annulus': (dict(H=(.3, 1, 2.5), Ri=(0, .2, .7), Ro=(.9, 1, 1.7), phic=A, phih=H), None, lambda H, Ri, Ro, phic, phih: b.annulus(2, H, Ri, Ro, phic, phih), None),
    'cone': (dict(H=(.3, 1, 2.5), r1=(0, .2, 1.1), r2=(.9, 1.5), phic=A, phih=H), None,
             lambda H, r1, r2, phic, phih: b.frustum(2, H, r2, r1, phic, phih, 0.), None),
    'tri_iso_prism': (dict(H=(.3, 1, 2.5), a=(.4, 1, 2), d=(.5, 1, 1.7), phic=A), None,
                      lambda H, a, d, phic: rz(b.tri_prism(2, H, d, -a/2, a/2), phic),
                      lambda H, a, d, phic: verts([(0, 0), (d, a/2), (d, -a/2)], H/2, phic)),
    'tri_iso_prism2': (dict(H=(.3, 1, 2.5), R=(.4, 1, 2), phic=A, phih=(.3, .8, 1.4)), None,
                       lambda H, R, phic, phih: rz(b.tri_prism(2, H, R*np.cos(phih), -R*np.sin(phih), R*np.sin(phih)), phic),
                       lambda H, R, phic, phih: verts([(0, 0), (R*np.cos(phih), R*np.sin(phih)), (R*np.cos(phih), -R*np.sin(phih))], H/2, phic)),
    'tri_prism': (dict(H=(.3, 1, 2.5), d=(.5, 1, 1.7), y1=(-1, .2, .5), y2=(.9, 2, -.4)), lambda g: g['y1'] != g['y2'],
                  lambda H, d, y1, y2: b.tri_prism(2, H, d, y1, y2), lambda H, d, y1, y2: verts([(0, 0), (d, y1), (d, y2)], H/2)),
    'rect_prism': (dict(H=(.3, 1, 2.5), a=(.4, 1, 2), b=(.5, 1, 1.7), phic=A), None, lambda H, a, b, phic: rz(globals()['b'].box(2, a, b, H), phic),
                   lambda H, a, b, phic: verts([(a/2, b/2), (-a/2, b/2), (a/2, -b/2), (-a/2, -b/2)], H/2, phic)),
    'trapezoid': (dict(t=(.3, 1, 2.5), w1=(.4, 1, 2), w2=(.5, 1, 1.7), h=(.3, 1, 2)), None, lambda t, w1, w2, h: b.trapezoid(2, t, w1, w2, h),
                  lambda t, w1, w2, h: verts([(0, w1/2), (0, -w1/2), (h, w2/2), (h, -w2/2)], t/2)),
    'ngon_prism': (dict(H=(.3, 1, 2.5), a=(.4, 1, 2), phic=A, N=(3, 4, 5, 6, 8, 11)), None, lambda H, a, phic, N: b.ngon(2, H, a, phic, N),
                   lambda H, a, phic, N: verts([(a/2/np.tan(PI/N), a/2)], H/2, phic) if 0 else np.concatenate(
                       [verts([(a/2/np.tan(PI/N), a/2)], H/2, phic+2*PI*k/N) for k in range(N)])),
    'tetrahedron': (dict(x=(.3, 1, 2.5), y=(.4, 1, 2), z=(.5, 1, 1.7)), None, lambda x, y, z: b.tet(2, [(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)]),
                    lambda x, y, z: verts([(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)])),
    'tetrahedron2': (dict(x=(.3, 1, 2.5), y1=(-1, .2, .5), y2=(.9, 2, -.4), z=(.5, 1, 1.7)), lambda g: g['y1'] != g['y2'],
                     lambda x, y1, y2, z: b.tet(2, [(0, 0, 0), (x, y1, 0), (x, y2, 0), (0, 0, z)]),
                     lambda x, y1, y2, z: verts([(0, 0, 0), (x, y1, 0), (x, y2, 0), (0, 0, z)])),
    'pyramid': (dict(x=(.3, 1, 2.5), y=(.4, 1, 2), z=(.5, 1, 1.7)), None, lambda x, y, z: b.pyramid(2, x, y, z),
                lambda x, y, z: verts([(x, y, 0), (-x, y, 0), (x, -y, 0), (-x, -y, 0), (0, 0, z)])),
    'cylhole': (dict(r=(.3, .5, .9), R=(1, 1.3)), None, lambda r, R: b.steinmetz(2, r, R), None),
    'platehole': (dict(t=(.3, 1), r=(.5, 1), theta=(0, .4, -.3, 1.1)), None, lambda t, r, theta: b.platehole(2, t, r, theta), None),
    'outercone': (dict(H=(.3, 1, 2.5), IR=(.2, .7), OR=(.9, 1.5), phih=H), None, lambda H, IR, OR, phih: F.hollow_cone(2, H, IR, OR, phih), None),
}
# geometries close to the special ones
NEAR = {
    'annulus': [(1., .5, 1., .3, h) for h in (3.1, PI-2e-3, PI/2-1e-3, PI/2+1e-3, .02)]+[(1., .97, 1., .3, 2.), (1., 1e-3, 1., 0., 1.), (.01, .5, 1., 1., 1.)],
    'cone': [(1., r, 1., .3, h) for r in (0, .4) for h in (3.1, PI-2e-3, PI/2-1e-3, PI/2+1e-3, .02)]+[(1., .98, 1., .4, 2.), (1., 1., 1., .4, 2.), (1., 1e-3, 1., .4, 2.)],
    'outercone': [(1., .4, 1., h) for h in (3.1, PI-2e-3, PI/2-1e-3, PI/2+1e-3, .02)]+[(1., .97, 1., 1.), (1., 1e-3, 1., 1.)],
    'tri_iso_prism': [(1., .01, 1., .3), (1., 1., .01, .3), (1., 2*3**-.5, 1.0002, .3)],
    'tri_iso_prism2': [(1., 1., .3, .02), (1., 1., .3, PI/2-.01), (1., 1., .3, PI/6+1e-4)],
    'tri_prism': [(1., 1., -.7, .7004), (1., 1., 1e-4, .9), (1., 1., -.9, -1e-4), (1., 1., .9, .92), (.01, 1., -.2, .9)],
    'rect_prism': [(1., 1., 1., .3), (1., 1., 1.0004, .3), (.001, 1., 1., .3), (1., .01, 1., .3)],
    'trapezoid': [(1., 1., 1., 1.), (1., 1., 1.0004, 1.), (1., 1.0004, 1., 1.), (1., .01, 1., 1.), (1., 1., .01, 1.), (.01, 1., .4, 1.)],
    'ngon_prism': [(1., .1, .3, n) for n in (7, 12, 13, 20, 21, 24, 40)],
    'tetrahedron': [(1., 1., 1.), (1., 1.0004, 1.), (.01, 1., 1.), (1., 1., .01)],
    'tetrahedron2': [(1., -.7, .7004, 1.), (1., 1e-4, .9, .5), (1., -.9, -1e-4, .5), (1., .9, .92, .5)],
    'pyramid': [(1., 1., 1.), (1., 1.0004, 1.), (.01, 1., 1.), (1., 1., .01)],
    'platehole': [(1., .5, 1e-3), (1., .5, -1e-3), (1., .5, PI/4+2e-4), (.05, 1., .4)],
    'cylinder': [(.01, 1.), (1., .01)],
}
# parameters that are not lengths
PURE = {'phic', 'phih', 'N', 'theta'}
ORDER = {'cylinder': ('H', 'R'), 'cylhole': ('r', 'R')}


def tasks(tier, seed):
    t = []
    for n in BODIES:
        k = 8 if n in ('annulus', 'cone') else 3 if n in ('platehole', 'outercone', 'ngon_prism', 'tri_prism', 'trapezoid', 'tetrahedron2') else 1
        t += [(tier, seed, 'body', n, j, k) for j in range(k)]
    t += [(tier, seed, 'near', n, 0, 0) for n in NEAR]
    t += [(tier, seed, 'scale', n, 0, 0) for n in BODIES]
    t += [(tier, seed, 'values', n, j, 0) for n in BODIES for j in range(len(BODIES[n][0]))]
    t += [(tier, seed, 'places', i, 0, 0) for i in range(len(START))]
    t += [(tier, seed, 'moves', i, 0, 0) for i in range(4)]
    t += [(tier, seed, 'angles', i, j, 0) for i in range(2) for j in range(len(ANG))]
    t += [(tier, seed, 'sum', i, 0, 0) for i in range(len(BOXES))]
    t += [(tier, seed, 'stl', 0, 0, 0)]
    t += [(tier, seed, 'many', n, 0, 0) for n in range(2, 13)]
    return t


def second(X, W):
    return np.einsum('ni,nj,n->ij', X, X, W)


def measured(mesh):
    """volume, first and second moments about the origin of a CAD body"""
    V, M, S = 0., np.zeros(3), np.zeros((3, 3))
    for s in solids(mesh):
        v = s.Volume()
        c = np.array(cq.Shape.centerOfMass(s).toTuple())
        I = np.array(cq.Shape.matrixOfInertia(s))
        if v < 0:
            # a solid whose faces look inwards: same body
            v, I = -v, -I
        cov = np.trace(I)/2*np.eye(3)-I
        V, M, S = V+v, M+v*c, S+cov+v*np.outer(c, c)
    return V, M, S


def solids(mesh):
    out = []
    for v in mesh.vals():
        out += v.Solids()
    return out


def compare(rec, mesh, V, M, S, case, tol, what='CAD body'):
    v, m, s = measured(mesh)
    r = np.sqrt(np.trace(S)/V)
    rec.close(v, V, f'{what}: volume', case, V, tol)
    rec.close(m, M, f'{what}: centroid', case, V*r, tol)
    rec.close(s, S, f'{what}: second moments', case, V*r*r, tol)


def run(task, rec):
    tier, seed, mode, arg, j, k = task
    if mode == 'body':
        alph, ok, body, vs = BODIES[arg]
        geos = [dict(zip(alph, v)) for v in itertools.product(*alph.values())]
        geos = [g for g in geos if not ok or ok(g)]
        for i, g in list(enumerate(geos))[j::k]:
            judge(rec, arg, g, bool((i+seed) % 3))
    elif mode == 'near':
        for i, v in enumerate(NEAR[arg]):
            judge(rec, arg, dict(zip(BODIES[arg][0], v)), bool((i+seed) % 3))
    elif mode == 'scale':
        # the same bodies in other units, from millimetres to kilometres
        alph, ok, body, vs = BODIES[arg]
        for i, v in enumerate(zip(*[(a[0], a[-1]) for a in alph.values()])):
            g = dict(zip(alph, v))
            if ok and not ok(g):
                continue
            for f in (.01, 30., 1000.):
                judge(rec, arg, {k: x if k in PURE else x*f for k, x in g.items()}, bool((i+seed) % 3), f)
    elif mode == 'values':
        values(rec, arg, j, seed)
    elif mode == 'many':
        many(rec, arg)
    elif mode == 'places':
        places(rec, arg)
    elif mode == 'angles':
        angles(rec, *task[3:5])
    elif mode == 'moves':
        moves(rec, arg, tier)
    elif mode == 'sum':
        sums(rec, arg, tier)
    else:
        stls(rec)


def judge(rec, arg, g, pm, f=1.):
    alph, ok, body, vs = BODIES[arg]
    case = [arg, g, pm]
    mesh = rec.call(getattr(gc, arg), pm, *g.values(), _case=case, _what=arg)
    rec.state(case)
    rec.trace()
    rec.trans(len(g))
    rec.sample(body=case)
    X, W = body(**g)
    W = np.abs(W)
    tol = 1e-7 if vs else 2e-3 if arg == 'cylhole' else 2e-5
    # the kernel resolves a tenth of a micrometre
    tol = max(tol, 1e-6/f)
    compare(rec, mesh, W.sum(), (X*W[:, None]).sum(0), second(X, W), case, tol, arg)
    rec.check(mesh.pmass is pm or mesh.pmass == pm, f'{arg}: sign of the mass', case, mesh.pmass)
    if vs:
        p = vs(**g)
        bb = mesh.val().BoundingBox()
        rec.close([[bb.xmin, bb.ymin, bb.zmin], [bb.xmax, bb.ymax, bb.zmax]], [p.min(0), p.max(0)], f'{arg}: bounding box', case, np.abs(p).max(), max(1e-5, 4e-7/np.abs(p).max()))
        q = np.array([v.Center().toTuple() for v in mesh.val().Vertices()])
        d = np.abs(q[:, None]-p[None]).max(2)
        rec.close(np.concatenate([d.min(0), d.min(1)]), 0*np.concatenate([d.min(0), d.min(1)]), f'{arg}: corners', case, np.abs(p).max(), 1e-6)


# every parameter through a row of values with the others held
LENGTHS = (.03, .1, .25, 1, 1., 2, 2., 3., 5., 12.7, 40., np.float64(1.3), np.int64(2))
TURNS = (0, 1e-3, -1e-3, PI/6, PI/4, PI/3, 1., 2*PI/3, 3*PI/4, PI, -PI/2, -PI, 3*PI/2, 2*PI, 7., -40., 3, np.float64(.4))
HALVES = (.05, PI/6, PI/4, PI/3, 1, 1.2, 2*PI/3, 3*PI/4, 2, 5*PI/6, 3., 3, PI, np.float64(.4))


def values(rec, arg, j, seed):
    alph, ok, body, vs = BODIES[arg]
    name = list(alph)[j]
    rows = [{n: a[k % len(a)] for n, a in alph.items()} for k in (0, 1)]
    for i, row in enumerate(rows):
        if name == 'N':
            vals = tuple(range(3, 31))+(np.int64(6),)
        elif name == 'phic':
            vals = TURNS
        elif name == 'phih':
            vals = [v for v in HALVES if arg != 'tri_iso_prism2' or v < PI/2]
        elif name == 'theta':
            vals = [s*v for v in (0, .05, PI/6, PI/4, 1, 1.2, np.float64(.4)) for s in (1, -1)]
        else:
            vals = LENGTHS
            if name in ('y1', 'y2'):
                vals = [s*v for v in vals for s in (1, -1)]+[0, .0]
            others = [v for n, v in row.items() if n not in PURE and n != name]
            # the same as, double and half another length, also with opposite sign
            vals = list(vals)+[v*f for v in others for f in (1, 2, .5)]
            if name in ('y1', 'y2'):
                vals += [-v for v in others]
        for n, v in enumerate(vals):
            g = dict(row, **{name: v})
            if ok and not ok(g):
                continue
            if arg in ('annulus', 'outercone') and not g[list(alph)[1]] < g[list(alph)[2]]:
                continue
            if arg == 'cone' and not max(g['r1'], g['r2']) > 0:
                continue
            if arg == 'cylhole' and not g['r'] <= g['R']*.98 or arg == 'platehole' and name != 'theta' and v > 20:
                continue
            judge(rec, arg, g, bool((i+n+seed) % 3))


def places(rec, i):
    """moves along and between the axes, of every size, and turns by familiar,
    equal, opposite and very small angles"""
    name, g, body = START[i]
    X, W = body()
    V, M, S = W.sum(), (X*W[:, None]).sum(0), second(X, W)
    pm = bool(i % 2)
    mesh = getattr(gc, name)(pm, *g)
    for s in itertools.product((-1, 0, 1), repeat=3):
        for u in (np.array([.7, .2, 1.3]), np.array([1, 1, 1]), np.array([.3, .3, 2.]), np.array([1e-3, 1e-3, 1e-3]), np.array([50., 20., 70.])):
            d = np.array(s)*u
            for form in (list(d), d):
                case = [name, 'to', str(form)]
                new = rec.call(gc.translate_mesh, mesh, form, _case=case)
                rec.state(case)
                rec.trace()
                rec.trans()
                compare(rec, new, V, M+V*d, S+np.outer(M, d)+np.outer(d, M)+V*np.outer(d, d), case, 1e-5, 'moved body')
                rec.check(new.pmass == pm, 'sign of a moved body', case, new.pmass)
    for t in TURNED:
        A = o.euler_zyz(*[float(x) for x in t])
        case = [name, 'by', str(t)]
        new = rec.call(gc.rotate_mesh, mesh, *t, _case=case)
        rec.state(case)
        rec.trace()
        rec.trans()
        compare(rec, new, V, A @ M, A @ S @ A.T, case, 1e-5, 'moved body')
        rec.check(new.pmass == pm, 'sign of a moved body', case, new.pmass)


TURNED = list(itertools.product((PI/3, -PI/4, PI/6, 3*PI/2, -PI/2, 3), (PI/4, -PI/3, 1e-3, -PI/2, 2*PI/3, 1), (-PI/6, 2*PI/3, PI/2, -1e-3, -PI, 2)))
TURNED += [(a, b2, c) for a, b2, c in itertools.product((.6, -.6, PI/2, 0), repeat=3)]+[(np.float64(.4), np.float64(-.3), np.float64(2.))]

RT = [(.7, .4, .2), (PI/2, 0, 0), (0, PI/2, 0), (0, 0, -1.1), (PI, -.6, 2.5), (2*PI, 4., -3.)]
TR = [[0, 0, .5], (-1.2, .3, .4), np.array([.1, -2, 0]), [0, 0, 0]]
START = [('tetrahedron2', (1., .2, .9, .7), lambda: BODIES['tetrahedron2'][2](1., .2, .9, .7)), ('tri_prism', (.3, 1., .2, .9), lambda: b.tri_prism(2, .3, 1, .2, .9)),
         ('annulus', (.3, .5, 1., .4, .9), lambda: b.annulus(2, .3, .5, 1., .4, .9)), ('pyramid', (.3, .8, 1.2), lambda: b.pyramid(2, .3, .8, 1.2))]


ANG = [0, .4, PI/2, PI, -PI, 2*PI, -.9, 7.1, 1e-3, 25.3, -1000.3]


def angles(rec, i, j):
    """every triple of angles, in which shortcuts could see a single axis"""
    name, g, body = START[i]
    X, W = body()
    V, M, S = W.sum(), (X*W[:, None]).sum(0), second(X, W)
    d = np.array([.7, -.2, .4])
    mesh = gc.translate_mesh(getattr(gc, name)(bool(i % 2), *g), d)
    for be, ga in itertools.product(ANG, ANG):
        A = o.euler_zyz(ANG[j], be, ga)
        case = [name, ANG[j], be, ga]
        new = rec.call(gc.rotate_mesh, mesh, ANG[j], be, ga, _case=case)
        rec.state(case)
        rec.trace()
        rec.trans()
        m, D = A @ M, A @ d
        compare(rec, new, V, m+V*D, A @ S @ A.T+np.outer(m, D)+np.outer(D, m)+V*np.outer(D, D), case, 1e-5, 'moved body')
        rec.check(new.pmass == bool(i % 2), 'sign of a moved body', case, new.pmass)


def moves(rec, i, tier):
    name, g, body = START[i]
    X, W = body()
    V, M, S = W.sum(), (X*W[:, None]).sum(0), second(X, W)
    mesh = getattr(gc, name)(bool(i % 2), *g)

    def state(A, d):
        return V, A @ M+V*d, A @ S @ A.T+np.outer(A @ M, d)+np.outer(d, A @ M)+V*np.outer(d, d)

    def apply_op(st, op, hist):
        mesh, A, d = st
        case = [name]+[str(h) for h in hist[1:]]
        m0 = measured(mesh)
        if op[0] == 'R':
            R = o.euler_zyz(*RT[op[1]])
            A, d2 = R @ A, R @ d
            new = rec.call(gc.rotate_mesh, mesh, *RT[op[1]], _case=case)
        else:
            d2 = d+np.asarray(TR[op[1]], float)
            new = rec.call(gc.translate_mesh, mesh, TR[op[1]], _case=case)
        compare(rec, new, *state(A, d2), case, 1e-5, 'moved body')
        rec.check(new.pmass == bool(i % 2), 'sign of a moved body', case, new.pmass)
        m1 = measured(mesh)
        rec.check(all(np.array_equal(p, q) for p, q in zip(m0, m1)) and mesh.pmass == bool(i % 2), 'moving a body modifies it', case)
        return new, A, d2

    ops = [('R', n) for n in range(len(RT))]+[('T', n) for n in range(len(TR))]
    bfs(rec, name, [(name, (mesh, np.eye(3), np.zeros(3)))], lambda s: ops, apply_op,
        lambda s: canon(np.concatenate([s[1].ravel(), s[2]]), 7), 2 if tier == 'quick' else 3)


# axis-aligned boxes in general position: (sign, low corner, high corner)
BOXES = [(1, (0, 0, 0), (2, 2.1, 2.2)), (1, (1.1, .5, -.6), (3.2, 1.3, 1.4)), (1, (5, 0, 0), (6, 1, 1.5)), (0, (.4, .7, -1), (1.5, 1.8, 3)),
         (0, (.6, .2, .3), (5.5, .9, .8)), (0, (-3, -3, -3), (-2, -2, -2.5))]


def box(i):
    s, lo, hi = BOXES[i]
    lo, hi = np.array(lo, float), np.array(hi, float)
    m = gc.rect_prism(bool(s), *(hi-lo)[[2, 0, 1]], 0)
    return gc.translate_mesh(m, list((lo+hi)/2))


def cells(ix):
    """volume, first and second moments of the boolean combination, by the
    grid of all the coordinates of the faces"""
    ax = [np.unique([BOXES[i][k][a] for i in ix for k in (1, 2)]) for a in range(3)]
    V, M, S = 0., np.zeros(3), np.zeros((3, 3))
    for c in itertools.product(*[range(len(a)-1) for a in ax]):
        lo = np.array([ax[a][c[a]] for a in range(3)])
        hi = np.array([ax[a][c[a]+1] for a in range(3)])
        mid = (lo+hi)/2
        inside = False
        for n, i in enumerate(ix):
            s, l, h = BOXES[i]
            if all(l[a] < mid[a] < h[a] for a in range(3)):
                inside = bool(n == 0 or s)
        if inside:
            v = np.prod(hi-lo)
            V += v
            M += v*mid
            S += v*(np.outer(mid, mid)+np.diag((hi-lo)**2)/12)
    return V, M, S


def sums(rec, first, tier):
    n = len(BOXES)
    seqs = [(first,)]+[(first, j) for j in range(n)]+[(first, j, k) for j in range(n) for k in range(n)]
    seqs += [(first,)+s for s in itertools.permutations(range(n), 3)]
    if tier != 'quick':
        seqs += [(first,)+s for s in itertools.permutations(range(n), 4)]
    for s in seqs:
        if not BOXES[first][0]:
            continue
        V, M, S = cells(s)
        if V < 1e-9 or len(set(s)) < len(s):
            continue
        parts = [box(i) for i in s]
        before = [measured(p) for p in parts]
        case = ['sum', s]
        lst = list(parts)
        r = rec.call(gc.sum_mesh, lst, _case=case)
        rec.state(case)
        rec.trace()
        rec.trans(len(s))
        rec.sample(sum=case)
        compare(rec, r, V, M, S, case, 1e-6, 'sum of bodies')
        rec.check(bool(r.pmass), 'sign of a sum of bodies', case, r.pmass)
        rec.check(len(lst) == len(parts) and all(x is y for x, y in zip(lst, parts)), 'the list of bodies was modified', case)
        for i, p, m0 in zip(s, parts, before):
            m1 = measured(p)
            rec.check(all(np.array_equal(x, y) for x, y in zip(m0, m1)), 'adding bodies modifies them', case)
            rec.check(len(s) == 1 or p.pmass == bool(BOXES[i][0]), 'adding bodies changes their sign', case, i)


def many(rec, n):
    """n disjoint boxes, or one large box with n-1 holes or a mixture, in one call"""
    for kind in ('apart', 'holes', 'both'):
        parts, V, M, S = [], 0., np.zeros(3), np.zeros((3, 3))
        for k in range(n):
            s = k == 0 or kind == 'apart' or kind == 'both' and k <= n//2
            d = np.array([.1, .15, .2])*(1+.05*k) if k else np.array([20., 3., 3.])
            c = np.zeros(3) if not k else np.array([1.4*k-8., (k % 3-1)*.8, (k % 2)*.9-.4])+(np.array([0, 5., 1.]) if s else 0)
            parts.append(rec.call(gc.translate_mesh, gc.rect_prism(bool(s), d[2], d[0], d[1], 0), list(c), _case=['many', n, k]))
            v = np.prod(d)*(1 if s else -1)
            V, M, S = V+v, M+v*c, S+v*(np.outer(c, c)+np.diag(d**2)/12)
        case = ['many', kind, n]
        r = rec.call(gc.sum_mesh, parts, _case=case)
        rec.state(case)
        rec.trace()
        rec.trans(n)
        # measured part by part where the parts are apart
        compare(rec, r, V, M, S, case, 1e-6, 'sum of many bodies')
        rec.check(bool(r.pmass), 'sign of a sum of bodies', case, r.pmass)


def read_stl(path):
    data = open(path, 'rb').read()
    if data[:5] == b'solid' and b'facet' in data[:400]:
        v = [[float(x) for x in l.split()[1:4]] for l in data.decode().splitlines() if l.strip().startswith('vertex')]
        return np.array(v).reshape(-1, 3, 3)
    n = int.from_bytes(data[80:84], 'little')
    a = np.frombuffer(data[84:84+50*n], dtype=np.dtype([('n', '<f4', 3), ('v', '<f4', (3, 3)), ('a', '<u2')]))
    return a['v'].astype(float)


def stls(rec):
    d = tempfile.mkdtemp(prefix='stl-')
    things = [(n, getattr(gc, n)(True, *g), body) for n, g, body in START]
    for n, mesh, body in things:
        X, W = body()
        p = os.path.join(d, n)
        rec.call(gc.save_stl, mesh, p, _case=['stl', n])
        T = read_stl(p+'.stl')
        vol = abs(np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2])).sum()/6)
        rec.state(['stl', n])
        rec.trace()
        rec.trans()
        rec.close(vol, W.sum(), 'volume of the saved body', ['stl', n], W.sum(), .02)
        rec.check(os.listdir(d) == [n+'.stl'], 'files written', ['stl', n], os.listdir(d))
        os.unlink(p+'.stl')
    for s in ((0, 1), (0, 2, 3), [2]):
        V, M, S = cells(s)
        p = os.path.join(d, 'sum')
        rec.call(gc.save_stl, [box(i) for i in s], p, _case=['stl', s])
        T = read_stl(p+'.stl')
        vol = abs(np.einsum('ni,ni->n', T[:, 0], np.cross(T[:, 1], T[:, 2])).sum()/6)
        rec.state(['stl', s])
        rec.trace()
        rec.trans()
        rec.close(vol, V, 'volume of the saved body', ['stl', s], V, 1e-3)
        os.unlink(p+'.stl')
    os.rmdir(d)
