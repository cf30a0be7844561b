"""The Octave toolbox: every configuration is run by the interpreter (twice, in
opposite orders) and compared with the reference mathematics."""
import itertools
import os
import subprocess
import tempfile
import numpy as np
from mc import oracle as o
from mc.alph import point_sets, cloud, vdc
from mc.engine import short
import newt

PI = np.pi
SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(newt.__file__))), 'matlab-src')
G = 6.67428e-11
ASSUME = ['the Octave interpreter and its core functions (legendre of the gsl package, griddata, ols) are trusted',
          'random generators are driven by deterministic equidistributed numbers; rotations are counter-clockwise as seen from the origin, as documented']


def lit(a):
    if isinstance(a, str):
        return a
    a = np.asarray(a, float)
    if a.ndim == 0:
        return repr(float(a)).replace('inf', 'Inf').replace('nan', 'NaN')
    if a.ndim == 1:
        a = a[None]
    if a.size == 0:
        return f'zeros({a.shape[0]},{a.shape[1]})'
    return '['+';'.join(','.join(lit(x) for x in r) for r in a)+']'


PRE = r'''
1;
warning('off', 'all');
function emit(id, x)
  printf("\n@@ %d %d %d", id, rows(x), columns(x));
  printf(" %.17g", real(x(:)));
  printf(" |");
  printf(" %.17g", imag(x(:)));
  printf("\n");
end
'''
# deterministic stand-ins for the generators of random numbers
RAND = r'''
function x = %s(varargin)
  persistent k = 0;
  if (nargin == 0)
    n = 1; m = 1;
  elseif (nargin == 1)
    n = varargin{1}(1); m = varargin{1}(end);
  else
    n = varargin{1}; m = varargin{2};
  end
  x = zeros(n, m);
  b = [2 3 5 7 11 13];
  for i = 1:n
    k++;
    for j = 1:m
      q = k; d = 1; v = 0;
      while (q > 0)
        d *= b(j); v += mod(q, b(j))/d; q = floor(q/b(j));
      end
      x(i, j) = v;
    end
  end
  %s
end
'''


def octave(stmts):
    """run the statements; list of arrays, 'error' or None"""
    with tempfile.TemporaryDirectory() as d:
        def w(n, t):
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        w('rand.m', RAND % ('rand', ''))
        w('randn.m', RAND % ('randn', 'x = 2*x-1;'))
        w('run3147PendulumParameters.m', 'pendulumPMScanGridSize = 0.25;\n')
        for p in ('plot', 'xlabel', 'ylabel'):
            w(p+'.m', f'function {p}(varargin)\nend\n')
        order = list(range(len(stmts)))
        lines = [PRE, 'pkg load gsl;', f"addpath('{SRC}');", f"addpath('{SRC}/shapes');", f"addpath('{d}');"]
        for i in order+order[::-1]:
            lines.append(f'try\n{stmts[i]}\nemit({i}, ans__);\ncatch e__\nprintf("\\n@@ {i} error %s\\n", strrep(e__.message, "\\n", " "));\nend\nclear ans__;')
        w('main__.m', '\n'.join(lines)+'\n')
        p = subprocess.run(['octave-cli', '--no-init-file', '--no-history', '--no-window-system', '-q', os.path.join(d, 'main__.m')],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=600)
    out = [[] for _ in stmts]
    for line in p.stdout.decode(errors='replace').split('\n'):
        if not line.startswith('@@ '):
            continue
        t = line[3:].split()
        i = int(t[0])
        if t[1] == 'error':
            out[i].append(('error', ' '.join(t[2:])))
            continue
        n, m = int(t[1]), int(t[2])
        k = t.index('|')
        # Octave prints an empty template when there is nothing to print
        re = np.array([float(x) for x in t[3:k]][:n*m])
        im = np.array([float(x) for x in t[k+1:]][:n*m])
        out[i].append((re+1j*im if im.any() else re).reshape(m, n).T)
    return out, p.stderr.decode(errors='replace')[-400:]


class Batch:
    """statements with their judges"""
    def __init__(self, rec, name):
        self.rec, self.name, self.items = rec, name, []

    def add(self, expr, judge, case, fails=False):
        self.items.append((expr if 'ans__' in expr else f'ans__ = {expr};', judge, case, fails))

    def go(self, random=False):
        rec = self.rec
        out, err = octave([x[0] for x in self.items])
        for (expr, judge, case, fails), res in zip(self.items, out):
            case = [self.name]+list(case)
            rec.state(case)
            rec.trans()
            rec.trace(len(res))
            if len(res) != 2:
                rec.fail(f'{self.name}: no result', case, f'{len(res)} results; {err}')
                continue
            for k, r in enumerate(res):
                if isinstance(r, tuple):
                    if not fails:
                        rec.fail(f'{self.name}: error', case, r[1])
                    continue
                if fails:
                    rec.fail(f'{self.name}: accepted', case, short(r))
                    continue
                if k and not random:
                    rec.close(r, res[0] if not isinstance(res[0], tuple) else r, f'{self.name}: result depends on earlier calls', case, tol=1e-12)
                judge(r, case)
            rec.sample(function=self.name, configuration=case)


def sets():
    d = {k: np.atleast_2d(np.asarray(v, float)) for k, v in point_sets().items() if k != 'tiny'}
    return d


def far(a):
    b = a.copy()
    b[:, 1:] += [2.7, -3.1, 1.9]
    return b


def force(rec, part, tier):
    b = Batch(rec, 'pointMatrixGravity')
    S = sets()
    S['cloud40'] = cloud(40, seed=50)
    names = list(S)
    for i, (x, y) in enumerate(itertools.product(names, names)):
        if i % 4 != part:
            continue
        for sh in (0, 1):
            m1, m2 = S[x], far(S[y])
            if sh:
                m1, m2 = m2, m1
            F, T = o.pair_force(m1, m2, G=G)
            f1 = np.abs(m1[:, 0]).sum()*np.abs(m2[:, 0]).sum()*G
            d = np.sqrt(((m1[:, None, 1:]-m2[None, :, 1:])**2).sum(2)).min()

            def judge(r, case, F=F, T=T, s=f1/d**2, reach=np.abs(m1[:, 1:]).max()):
                rec.close(r, np.concatenate([F, T])[None], 'pointMatrixGravity', case, s*(1+reach), 1e-11)
            b.add(f'[f__, t__] = pointMatrixGravity({lit(m1)}, {lit(m2)}); ans__ = [f__, t__];', judge, (x, y, sh))
    for x in names[part::4]:
        m2 = far(S[x])
        for k, p in enumerate(([2., .1, .2, .3], [-1., 0, 0, 0], [0, 1., 1, 1])):
            F, _ = o.pair_force([p], m2, G=G)
            b.add(f'Gmmr2Array({lit(p)}, {lit(m2)})', lambda r, case, F=F: rec.close(r, F[:, None], 'Gmmr2Array', case, G*100, 1e-11), ('Gmmr2Array', x, k))
    b.go()


def motion(rec, part, tier):
    b = Batch(rec, 'rigid motions')
    S = sets()
    axes = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -3), (1, 2, -1), (-.3, .1, .02), (1e-6, 0, 2e-6), (5e3, 1e3, 0)]
    angles = [0, .4, PI/2, -1.1, PI, 3*PI/2, 2*PI, 7.9, -11]
    vecs = [(0, 0, 0), (1, 0, 0), (0, -2, 0), (0, 0, 3), (.3, -.2, 1e-3), (1e4, 2, -3)]
    for i, x in enumerate(S):
        if i % 2 != part:
            continue
        m = S[x]
        sc = 1+np.abs(m).max()
        for v in vecs:
            w = m.copy()
            w[:, 1:] += v
            b.add(f'translatePMArray({lit(m)}, {lit(v)})', lambda r, case, w=w, s=sc+max(map(abs, v)): rec.close(r, w, 'translatePMArray', case, s, 1e-13), ('translate', x, v))
        for a, t in itertools.product(axes, angles):
            w = m.copy()
            # counter-clockwise as viewed from the origin
            w[:, 1:] = m[:, 1:] @ o.axis_angle(a, -t).T
            b.add(f'rotatePMArray({lit(m)}, {lit(t)}, {lit(a)})', lambda r, case, w=w: rec.close(r, w, 'rotatePMArray', case, sc, 1e-11), ('rotate', x, a, t))
    # sequences of motions
    m = S['cloud7']
    ops = [('r', (0, 0, 1), .7), ('r', (1, 2, -1), -1.9), ('t', (.3, -.2, .5)), ('t', (0, 1, 0)), ('r', (0, 1, 0), PI/2)]
    for h in itertools.product(range(len(ops)), repeat=3 if tier == 'quick' else 4):
        if h[0] % 2 != part:
            continue
        w, e = m.copy(), 'ans__ = '+lit(m)+'; '
        for k in h:
            op = ops[k]
            if op[0] == 'r':
                w[:, 1:] = w[:, 1:] @ o.axis_angle(op[1], -op[2]).T
                e += f'ans__ = rotatePMArray(ans__, {lit(op[2])}, {lit(op[1])}); '
            else:
                w[:, 1:] += op[1]
                e += f'ans__ = translatePMArray(ans__, {lit(op[1])}); '
        b.add(e, lambda r, case, w=w: rec.close(r, w, 'sequence of motions', case, 4, 1e-11), ('sequence', h))
    b.go()


def moments(rec, part, tier):
    b = Batch(rec, 'computeMoments')
    S = sets()
    pts = [(x, y, z) for x in (-1.1, 0, .6) for y in (-.7, 0, .9) for z in (-1.3, 0, .4)]
    for i, p in enumerate(pts):
        S[f'point{p}'] = np.array([[1.5, *p]])
    L = 6 if tier == 'quick' else 12
    for i, x in enumerate(S):
        if i % 4 != part:
            continue
        m = S[x]
        r = np.sqrt((m[:, 1:]**2).sum(1)).max()
        q = o.inner(L, m)
        for l in range(L+1):
            for k in range(l+1):
                b.add(f'computeMoments({l}, {k}, {lit(m)})', lambda v, case, w=q[l, L+k], s=np.abs(m[:, 0]).sum()*r**l*(l+1): rec.close(v, [[w]], 'computeMoments', case, s+1e-12, 1e-11), (x, l, k))
        n = 1+i % L
        w = np.array([(l, k, q[l, L+k]) for l in range(1, n+1) for k in range(l+1)])
        b.add(f'computeMomentSummary({n}, {lit(m)})', lambda v, case, w=w, s=np.abs(m[:, 0]).sum()*(1+r)**n*(n+1): rec.close(v, w, 'computeMomentSummary', case, s, 1e-11), ('summary', x, n))
    th = [0, .3, 1.1, PI/2, 2.5, PI]
    ph = [-3., -.4, 0, .9, PI, 5., 6.2]
    if part == 0:
        for l in range((8 if tier == 'quick' else 20)+1):
            for m in range(l+1):
                for t, f in itertools.product(th, ph):
                    xyz = np.array([[1., np.sin(t)*np.cos(f), np.sin(t)*np.sin(f), np.cos(t)]])
                    w = np.conj(o.inner(l, xyz)[l, l+m])
                    b.add(f'YLM({l}, {m}, {lit(t)}, {lit(f)})', lambda v, case, w=w, l=l: rec.close(v, [[w]], 'YLM', case, l+1, 1e-11), ('YLM', l, m, t, f))
    b.go()


def sortrows(a):
    a = np.asarray(a)
    return a[np.lexsort(np.round(a, 9).T)] if a.ndim == 2 else a


def centres(n, step):
    return [(i+1-(n+1)/2)*step for i in range(n)]


def shapes(rec, part, tier):
    b = Batch(rec, 'generators')
    if part == 0:
        for mass, t, w, h in itertools.product((1., 2.5), (.5, 2), (1., .3), (.7, 3)):
            for n in itertools.product((1, 2, 5), (1, 3), (2, 4)):
                p = np.array([(mass/np.prod(n), *q) for q in itertools.product(*[centres(k, s/k) for k, s in zip(n, (t, w, h))])])
                b.add(f'genPointMassRect({mass}, {t}, {w}, {h}, {n[0]}, {n[1]}, {n[2]})',
                      lambda r, case, p=p: rec.close(sortrows(r), sortrows(p), 'genPointMassRect', case, 3, 1e-12), ('Rect', mass, t, w, h, n))
        for mass, (ri, ro), t in itertools.product((1., 2.5), ((0, 1.), (.4, 1.), (.9, 2.3), (0, .3)), (.1, 1.5)):
            for nx, ny in itertools.product((1, 2, 3), (2, 5, 8, 11)):
                y = centres(ny, 2*ro/ny)
                p = np.array([(1., u, v, w) for u in centres(nx, t/nx) for v in y for w in y])
                rr = np.hypot(p[:, 2], p[:, 3])
                if np.any(np.abs(rr-ri) < 1e-9) and ri > 0 or np.any(np.abs(rr-ro) < 1e-9):
                    continue
                p = p[(rr <= ro) & (rr >= ri)]
                if not len(p):
                    continue
                p[:, 0] = mass/len(p)
                b.add(f'genPointMassAnnlSheet({mass}, {ri}, {ro}, {t}, {nx}, {ny})',
                      lambda r, case, p=p: rec.close(sortrows(r), sortrows(p), 'genPointMassAnnlSheet', case, 3, 1e-12), ('Annl', mass, ri, ro, t, nx, ny))
        for m, x, y, z, d, n in itertools.product((1., -2.), (0, .3), (0, -.4), (-1.2, 0), (.1, 2), (1, 2, 7)):
            p = np.array([(m, x, y, z+d*k) for k in range(n)])
            b.add(f'genPointMassLine({m}, {x}, {y}, {z}, {d}, {n})', lambda r, case, p=p: rec.close(sortrows(r), sortrows(p), 'genPointMassLine', case, 3, 1e-13), ('Line', m, x, y, z, d, n))
        for m, R, n in itertools.product((1., 2.5), (.3, 2), (1, 2, 3, 8, 13)):
            p = np.array([(m/n, 0, R*np.sin(2*PI*k/n), R*np.cos(2*PI*k/n)) for k in range(n)])
            b.add(f'genPointMassXRing({m}, {R}, {n})', lambda r, case, p=p: rec.close(r[np.argsort(np.round(np.arctan2(r[:, 2], r[:, 3]) % (2*PI), 6) % 6.283185)], p, 'genPointMassXRing', case, 3, 1e-12), ('Ring', m, R, n))
        b.go()
        return
    if part == 1:
        heights = [[[2.5]], [[1.5, 3.5]], [[2.5], [.5]], [[1.5, .2, 4.5], [0, 2.5, 3.5]], [['nan', 1.5], [2.5, 'nan'], [3.5, -1.5]], [[.5, .2], [.1, 1.5]], [[1.5]*31]*3]
        for A, dx, dy, dz, rho in itertools.product(heights, (1., .5), (1., .3), (1., .25), (1., 8.)):
            A = np.array([[np.nan if v == 'nan' else v*dz for v in row] for row in A])
            p = np.array(grid(A, dx, dy, dz, rho)).reshape(-1, 4)
            b.add(f'genPointMassArrayFrom2DArray({lit(A)}, {dx}, {dy}, {dz}, {rho})',
                  lambda r, case, p=p: rec.close(sortrows(r), sortrows(p), 'genPointMassArrayFrom2DArray', case, 20, 1e-12), ('2DArray', A.tolist(), dx, dy, dz, rho))
        for nx, ny, dx, dy, dz, (x0, y0), rho in itertools.product((3, 4), (3, 5), (1., .5), (1., .25), (.5,), ((0, 0), (-2, 3)), (1., 8.)):
            X, Y = np.meshgrid(x0+dx*np.arange(nx), y0+dy*np.arange(ny))
            Z = (np.floor(3+X-.7*Y+((X*7+Y*3) % 4))+12.5)*dz
            d = np.c_[X.ravel(), Y.ravel(), Z.ravel()]
            k = (np.arange(len(d))*7) % len(d) if len(d) % 7 else np.arange(len(d))[::-1]
            p = np.array(grid(Z, dx, dy, dz, rho))
            b.add(f'scanToPMArray({lit(d[k])}, {dx}, {dy}, {dz}, {rho})', lambda r, case, p=p: rec.close(sortrows(r), sortrows(p), 'scanToPMArray', case, 20, 1e-9), ('scan', nx, ny, dx, dy, dz, x0, y0, rho))
        for n, k in itertools.product((4, 9, 30), range(6)):
            d = cloud(n, 5., seed=k)[:, 1:]+[3, -2, 7.]
            d[:, 2] += d[:, 0]*(.3*k)-d[:, 1]*.2*(k % 3)
            w = d-d.mean(0)
            w[:, 2] -= w[:, :2] @ np.linalg.lstsq(w[:, :2], w[:, 2], rcond=None)[0]
            w *= 1e-3
            b.add(f'scanCenterAndRemoveLinear({lit(d)})', lambda r, case, w=w: rec.close(r, w, 'scanCenterAndRemoveLinear', case, 1e-2, 1e-11), ('linear', n, k))
        b.go()
        return
    # random generators
    for m, R, N in itertools.product((1., 2.5), (.3, 2), (200, 2000)):
        def judge(r, case, m=m, R=R, N=N):
            rec.close(r[:, 0].sum(), m, 'random shell: mass', case, m, 1e-12)
            rec.close(r[:, 0], r[:, 0]*0+m/len(r), 'random shell: equal masses', case, m, 1e-12)
            rec.close((r[:, 1:]**2).sum(1), R*R+0*r[:, 0], 'random shell: radius', case, R*R, 1e-12)
            rec.check(abs(len(r)-N) < 10*np.sqrt(N), 'random shell: number of points', case, len(r))
            uniform(rec, r[:, 1:]/R, 'random shell', case, N)
        b.add(f'genPointMassSphericalRandomShell({m}, {R}, {N})', judge, ('shell', m, R, N))
    for m, (ri, ro), N in itertools.product((1., 2.5), ((0, 1.), (.4, 1.), (1.8, 2.)), (1, 50, 400)):
        def judge(r, case, m=m, ri=ri, ro=ro, N=N):
            rec.check(r.shape == (N, 4), 'random disk: number of points', case, r.shape)
            rec.close(r[:, :2], np.tile([m, 0], (len(r), 1)), 'random disk: masses in the plane', case, 1, 1e-13)
            rho = np.hypot(r[:, 2], r[:, 3])
            rec.check((rho >= ri-1e-12).all() and (rho <= ro+1e-12).all(), 'random disk: outside the annulus', case, (rho.min(), rho.max()))
            if N >= 400:
                rec.close((rho**2).mean(), (ri**2+ro**2)/2, 'random disk: uniform', case, (ro**2-ri**2), .08)
                rec.close([r[:, 2].mean(), r[:, 3].mean()], [0, 0], 'random disk: centred', case, ro, .1)
        b.add(f'genPointMassRandomDisk({m}, {ri}, {ro}, {N})', judge, ('disk', m, ri, ro, N))
    for ri, ro in ((-1, 1), (1, -1), (1, 1), (2, 1)):
        b.add(f'genPointMassRandomDisk(1, {ri}, {ro}, 5)', None, ('disk refused', ri, ro), True)
    for m, y, z, N in itertools.product((1., 2.5), (.5, 2), (.3, 1), (1, 300)):
        def judge(r, case, m=m, y=y, z=z, N=N):
            rec.check(r.shape == (N, 4), 'random rectangle: number of points', case, r.shape)
            rec.close(r[:, :2], np.tile([m, 0], (len(r), 1)), 'random rectangle: masses in the plane', case, 1, 1e-13)
            rec.check((np.abs(r[:, 2]) <= y/2).all() and (np.abs(r[:, 3]) <= z/2).all(), 'random rectangle: outside', case)
            if N >= 300:
                rec.close([(r[:, 2]**2).mean()*12/y**2, (r[:, 3]**2).mean()*12/z**2, 1+2*r[:, 2].mean()/y, 1+2*r[:, 3].mean()/z], [1, 1, 1, 1], 'random rectangle: uniform', case, 1, .1)
        b.add(f'genPointMassRandomRectangle({m}, {y}, {z}, {N})', judge, ('rectangle', m, y, z, N))
    for y, z in ((-1, 1), (1, -1), (-1, -2)):
        b.add(f'genPointMassRandomRectangle(1, {y}, {z}, 5)', None, ('rectangle refused', y, z), True)
    for x, m in sets().items():
        def judge(r, case, m=m):
            if not rec.check(r.shape == m.shape, 'scatter: shape', case, r.shape):
                return
            rec.close(r[:, :2], m[:, :2], 'scatter moves the masses in y and z only', case, 1+np.abs(m).max(), 1e-14)
            d = (r-m)[:, 2:]
            rec.check((np.abs(d) <= .25+1e-9).all() and np.abs(d).max() > 1e-3 and len(np.unique(np.round(d, 9))) == d.size, 'scatter: displacements', case, d)
        b.add(f'scatterPMMassesYZGrid({lit(m)})', judge, ('scatter', x))
    b.go(random=True)
    b = Batch(rec, 'SampleDemo')
    rows = []
    P0 = np.array([[.1, 5e-2, 0, 5e-2], [.1, -5e-2, 0, -5e-2]])
    for a in np.arange(63)*.1:
        A = P0.copy()
        A[:, 1:] = A[:, 1:] @ o.axis_angle((0, 0, 1), -a).T+[-.3, 0, 0]
        F, T = o.pair_force(P0, A, G=G)
        rows.append([a, *F, *T])
    rows = np.array(rows)
    s = np.abs(rows).max(0)+1e-16
    b.add('SampleDemo; ans__ = results;', lambda r, case: rec.close(r, rows, 'SampleDemo', case, s, 1e-9), ())
    b.go()


def uniform(rec, u, what, case, N):
    tol = 12/np.sqrt(N)
    rec.close(u.mean(0), np.zeros(3), f'{what}: centred', case, 1, tol)
    rec.close(u.T @ u/len(u), np.eye(3)/3, f'{what}: isotropic', case, 1, tol)
    rec.close((u[:, 2]**4).mean(), .2, f'{what}: uniform', case, 1, tol)


def grid(A, dx, dy, dz, rho):
    ny, nx = A.shape
    out = []
    for j in range(nx):
        for i in range(ny):
            if not np.isnan(A[i, j]):
                for k in range(int(np.floor(A[i, j]/dz+1e-9))):
                    out.append((dx*dy*dz*rho, (j-(nx-1)/2)*dx, (i-(ny-1)/2)*dy, (k+.5)*dz))
    return out


def tasks(tier, seed):
    return [(tier, seed, 'force', k) for k in range(4)]+[(tier, seed, 'motion', k) for k in range(2)]+[(tier, seed, 'moments', k) for k in range(4)]+[(tier, seed, 'shapes', k) for k in range(3)]


def run(task, rec):
    tier, seed, mode, part = task
    {'force': force, 'motion': motion, 'moments': moments, 'shapes': shapes}[mode](rec, part, tier)
