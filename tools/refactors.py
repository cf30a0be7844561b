"""Behaviour-preserving rewrites, on which every check has to stay quiet (a
development aid, no check reads it).
usage: refactors.py [--jobs N] [NAME ...]"""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}

# name: (file, code appended to it, properties)
R['glib-einsum'] = ('glib.py', '''
def _pull(m1, m2):
    m2 = np.atleast_2d(m2)
    d = m2[:, 1:4]-m1[1:4]
    return m2[:, 0], d, np.linalg.norm(d, axis=1)


def gmmr2_array(mass1, mass2):
    m, d, r = _pull(mass1, mass2)
    return BIG_G*mass1[0]*np.einsum('n,nk->k', m/(r*r*r), d)


def yukawa_array(mass1, mass2, alpha, lmbd):
    m, d, r = _pull(mass1, mass2)
    u = r/lmbd
    return BIG_G*alpha*mass1[0]*np.einsum('n,nk->k', m*np.exp(-u)*(1+u)/r**3, d)


def rotate_point_array(pointMass, theta, rotVec):
    k = np.asarray(rotVec)/np.linalg.norm(rotVec)
    pts = np.atleast_2d(pointMass)
    x = pts[:, 1:4]
    c, s = np.cos(theta), np.sin(theta)
    y = x*c+np.cross(k, x)*s+np.outer(x @ k, k)*(1-c)
    out = np.column_stack([pts[:, 0], y])
    return out[0] if np.ndim(pointMass) == 1 else out
''', 'P01 P02 P03 P19 P22')
R['glib-pairs'] = ('glib.py', '''
def _sum(mass1, mass2, law):
    a, b = np.atleast_2d(mass1).astype(float), np.atleast_2d(mass2).astype(float)
    F = np.zeros((len(a), 3))
    for j in range(0, len(b), 256):
        d = b[None, j:j+256, 1:4]-a[:, None, 1:4]
        r = np.sqrt((d*d).sum(-1))
        F += ((a[:, :1]*b[None, j:j+256, 0]*law(r))[:, :, None]*d).sum(1)
    return F[::-1].sum(0), np.cross(a[:, 1:4], F)[::-1].sum(0)


def point_matrix_gravity(mass1, mass2):
    return _sum(mass1, mass2, lambda r: BIG_G/r**3)


def point_matrix_yukawa(mass1, mass2, alpha, lmbd):
    return _sum(mass1, mass2, lambda r: BIG_G*alpha*np.exp(-r/lmbd)*(1/r**3+1/(r**2*lmbd)))
''', 'P01 P02 P22')
R['grid-mesh'] = ('glibShapes.py', '''
def rectangle(mass, x, y, z, nx, ny, nz):
    ax = [((np.arange(n)+.5)/n-.5)*s for n, s in ((nx, x), (ny, y), (nz, z))]
    Z, Y, X = np.meshgrid(ax[2], ax[1], ax[0], indexing='ij')
    return np.column_stack([np.full(X.size, mass/X.size), X.ravel(), Y.ravel(), Z.ravel()])


def annulus(mass, r1, r2, t, nx, nz):
    g = ((np.arange(nx)+.5)/nx*2-1)*r2
    z = ((np.arange(nz)+.5)/nz-.5)*t
    Z, Y, X = np.meshgrid(z, g, g, indexing='ij')
    r = np.hypot(X, Y)
    k = (r >= r1) & (r <= r2)
    n = k.sum()
    return np.column_stack([np.full(n, mass/n), X[k], Y[k], Z[k]])


def sphere(mass, R, N):
    g = ((np.arange(N)+.5)/N*2-1)*R
    X, Y, Z = (a.ravel() for a in np.meshgrid(g, g, g, indexing='ij'))
    k = X*X+Y*Y+Z*Z <= R*R
    return np.column_stack([np.full(k.sum(), mass/k.sum()), X[k], Y[k], Z[k]])
''', 'P04 P22')
R['gl-mesh'] = ('gShapeGL.py', '''
def _grid(x, y, z):
    (x, wx), (y, wy), (z, wz) = x, y, z
    W = wz[:, None, None]*wy[None, :, None]*wx[None, None, :]
    Z, Y, X = np.meshgrid(z, y, x, indexing='ij')
    return np.column_stack([W.ravel(), X.ravel(), Y.ravel(), Z.ravel()])


def _gl(n, a, b):
    s, w = np.polynomial.legendre.leggauss(n)
    return a+(b-a)*(s+1)/2, w


def _normed(p, mass):
    p[:, 0] /= p[:, 0].sum()
    p[:, 0] *= mass
    return p


def rectangle(mass, x, y, z, dx, dy, dz):
    return _normed(_grid(_gl(dx, -x/2, x/2), _gl(dy, -y/2, y/2), _gl(dz, -z/2, z/2)), mass)


def annulus(mass, iR, oR, t, dd, dz):
    p = _grid(_gl(dd, -oR, oR), _gl(dd, -oR, oR), _gl(dz, -t/2, t/2))
    r = np.hypot(p[:, 1], p[:, 2])
    return _normed(p[(r >= iR) & (r <= oR)], mass)


def cone(mass, R, H, dd, dz):
    p = _grid(_gl(dd, -R, R), _gl(dd, -R, R), _gl(dz, 0, H))
    return _normed(p[np.hypot(p[:, 1], p[:, 2]) <= R*p[:, 3]/H], mass)


def tri_prism(mass, d, y1, y2, t, dx, dy, dz):
    if y2 < y1:
        print('Require y2 > y1')
        return []
    p = _grid(_gl(dx, 0, d), _gl(dy, min(0, y1), max(0, y2)), _gl(dz, -t/2, t/2))
    k = (p[:, 1]*y1 <= p[:, 2]*d) & (p[:, 1]*y2 >= p[:, 2]*d)
    return _normed(p[k], mass)
''', 'P05 P22')
R['moments-legendre'] = ('pg2Multi.py', '''
def _ylm(m, n, phi, theta):
    am = abs(m)
    N = np.sqrt((2*n+1)/(4*np.pi)*np.exp(sp.gammaln(n-am+1)-sp.gammaln(n+am+1)))
    y = N*sp.lpmv(am, n, np.cos(theta))*np.exp(1j*am*phi)
    return y if m >= 0 else (-1)**am*np.conj(y)


def _polar(a):
    x, y, z = a[:, 1], a[:, 2], a[:, 3]
    return np.sqrt(x*x+y*y+z*z), np.arctan2(np.hypot(x, y), z), np.arctan2(y, x)


def qmoments(l, massArray):
    q = np.zeros([l+1, 2*l+1], dtype='complex')
    r, theta, phi = _polar(massArray)
    for n in range(l, -1, -1):
        w = massArray[:, 0]*r**n
        for m in range(-n, n+1):
            q[n, l+m] = (w*np.conj(_ylm(m, n, phi, theta))).sum()
    return q


def Qmomentsb(l, massArray):
    q = np.zeros([l+1, 2*l+1], dtype='complex')
    r, theta, phi = _polar(massArray)
    if not r.all():
        print('Outer multipole moments cannot be evaluated at the origin.')
        return q
    for n in range(l+1):
        w = massArray[:, 0]/r/r**n
        for m in range(n, -n-1, -1):
            q[n, l+m] = np.dot(w, _ylm(m, n, phi, theta))
    return q
''', 'P06 P09 P22')
R['translate-reordered'] = ('translations.py', '''
def _fill(q, L):
    for l in range(L+1):
        for m in range(1, l+1):
            q[l, L-m] = (-1)**m*np.conj(q[l, L+m])
        q[l, L] = q[l, L].real
    return q


def _polar(v):
    return np.linalg.norm(v), np.arctan2(v[1], v[0]), np.arctan2(np.hypot(v[0], v[1]), v[2])


def translate_qlm(qlm, rPrime):
    r, phi, theta = _polar(rPrime)
    if r == 0:
        return np.copy(qlm)
    L0 = len(qlm)-1
    out = np.zeros([L0+1, 2*L0+1], dtype='complex')
    for L in range(L0, -1, -1):
        for M in range(L+1):
            tot = 0
            for l in range(L, -1, -1):
                lP = L-l
                fac = np.sqrt(4*np.pi)*np.exp((sp.gammaln(2*L+2)-sp.gammaln(2*lP+2)-sp.gammaln(2*l+2))/2)*r**lP
                for m in range(max(-l, M-lP), min(l, M+lP)+1):
                    if qlm[l, L0+m] == 0:
                        continue
                    tot += fac*cg.cgCoeff2(lP, l, M-m, m, L, M)*np.conj(sp.sph_harm(M-m, lP, phi, theta))*qlm[l, L0+m]
            out[L, L0+M] = tot
    return _fill(out, L0)
''', 'P07 P17 P19 P22')
R['rotation-cache'] = ('rotations.py', '''
import functools
_plain_wignerDl = wignerDl


@functools.lru_cache(maxsize=64)
def _kept(LMax, alpha, beta, gamma):
    return tuple(_plain_wignerDl(LMax, alpha, beta, gamma))


def wignerDl(LMax, alpha, beta, gamma):
    try:
        return [np.copy(d) for d in _kept(int(LMax), float(alpha), float(beta), float(gamma))]
    except TypeError:
        return _plain_wignerDl(LMax, alpha, beta, gamma)


def rotate_qlm(qlm, alpha, beta, gamma):
    L = len(qlm)-1
    out = np.array(qlm)
    for l, d in enumerate(wignerDl(L+1, alpha, beta, gamma)[:L+1]):
        if l:
            out[l, L-l:L+l+1] = np.einsum('ij,j->i', d, qlm[l, L-l:L+l+1])
    return out


def Dl(l, alpha, beta, gamma):
    return np.array([[Dlmn(l, m, n, alpha, beta, gamma) for m in range(-l, l+1)] for n in range(-l, l+1)])
''', 'P08 P07 P09 P17 P19 P22')
R['rotation-direct'] = ('rotations.py', '''
import math


def Dlmn(l, m, n, alpha, beta, gamma):
    f = math.factorial
    tot = 0
    for k in range(max(m-n, 0), min(l+m, l-n)+1):
        tot += (-1)**(k+n-m)*math.cos(beta/2)**(2*l+m-n-2*k)*math.sin(beta/2)**(n-m+2*k)/(f(k)*f(l+m-k)*f(l-n-k)*f(n-m+k))
    return tot*math.sqrt(f(l-m)*f(l+m)*f(l-n)*f(l+n))*np.exp(-1j*(alpha*n + gamma*m))
''', 'P08')
R['recurs-apply'] = ('translationRecurs.py', '''
def _apply(qlm, mats, q2Q):
    L = len(qlm)-1
    if L != len(mats)-1:
        raise ValueError('Mis-matched multipole degree, l')
    out = np.zeros([L+1, 2*L+1], dtype='complex')
    for m in range(-L, L+1):
        a = abs(m)
        out[a:, L+m] = (np.conj(mats[a]) if m < 0 else mats[a]) @ qlm[a:, L+m]
    return out[:, ::-1] if q2Q else out


def apply_trans_mat(qlm, efms, q2Q=False):
    return _apply(qlm, efms, q2Q)


def apply_trans_mat_right(qlm, efms, q2Q=False):
    return _apply(qlm, [e.T for e in efms], q2Q)
''', 'P07 P09 P22')
R['force-sparse'] = ('multipoleLib.py', '''
def multipole_force(LMax, qlm, Qlmb, x, y, z, cnst=BIG_G):
    b = np.array(force_basis(LMax, x, y, z))
    tot = np.zeros(3, dtype='complex')
    for l in range(LMax, 0, -1):
        for m in range(-l, l+1):
            if Qlmb[l, LMax+m] == 0:
                continue
            for lo in range(l):
                lp = l-lo
                for mo in range(max(-lo, m-lp), min(lo, m+lp)+1):
                    if qlm[lo, LMax+mo] == 0:
                        continue
                    g = sp.gammaln(l+m+1)+sp.gammaln(l-m+1)-sp.gammaln(lo+mo+1)-sp.gammaln(lo-mo+1)
                    tot += 4*np.pi*cnst*qlm[lo, LMax+mo]*Qlmb[l, LMax+m]*np.exp(g/2)/np.sqrt((2*l+1)*(2*lo+1))*b[:, lp, LMax+m-mo]
    return tot


def embed_qlm(qlm, LNew):
    L = np.shape(qlm)[0]-1
    if LNew < 0:
        print('degree cannot be negative')
        return 0
    q = np.array(qlm)
    if LNew <= L:
        return q[:LNew+1, L-LNew:L+LNew+1].copy()
    d = LNew-L
    return np.pad(q, ((0, d), (d, d))).astype(complex)


def torques_at_angle(tc, ts, angles, outer=False):
    s = -1 if outer else 1
    ks = np.arange(1, len(tc))
    a = s*np.multiply.outer(np.asarray(angles), ks)
    tc, ts = np.asarray(tc), np.asarray(ts)
    v = np.cos(a) @ (tc[1:].real+ts[1:].real) + np.sin(a) @ (tc[1:].imag+ts[1:].imag)
    return v + tc[0].real/2 + ts[0].imag/2
''', 'P10 P11 P19 P22')
R['cg-factorials'] = ('clebschGordan.py', '''
import math


def _ok(j1, j2, m1, m2, J, M):
    return not (j1 < abs(m1) or j2 < abs(m2) or J < abs(M) or J > j1+j2 or J < abs(j1-j2))


def cgCoeff(j1, j2, m1, m2, J, M):
    if not _ok(j1, j2, m1, m2, J, M):
        print('Invalid')
        return 0
    if M != m1+m2:
        return 0.
    f = lambda x: math.lgamma(x+1)
    pre = .5*(math.log(2*J+1)+f(J+j1-j2)+f(J-j1+j2)+f(j1+j2-J)-f(j1+j2+J+1)+f(J+M)+f(J-M)+f(j1-m1)+f(j1+m1)+f(j2-m2)+f(j2+m2))
    tot = 0.
    for k in range(int(max(0, j2-m1-J, j1+m2-J)), int(min(j1+j2-J, j1-m1, j2+m2))+1):
        tot += (-1)**k*math.exp(pre-f(k)-f(j1+j2-J-k)-f(j1-m1-k)-f(j2+m2-k)-f(J-j2+m1+k)-f(J-j1-m2+k))
    return tot
''', 'P12 P07 P22')
R['qlm-factorials'] = ('qlm.py', '''
import math


def _finish(q, L):
    for l in range(L+1):
        for m in range(1, l+1):
            q[l, L-m] = (-1)**m*np.conj(q[l, L+m])
    return q


def annulus(L, mass, H, Ri, Ro, phic, phih):
    if not (H > 0 and Ro > Ri >= 0 and 0 < phih <= np.pi):
        raise ValueError('Unphysical parameter arguments')
    q = np.zeros([L+1, 2*L+1], dtype='complex')
    for l in range(L+1):
        for m in range(l % 2, l+1, 2):
            ang = np.exp(-1j*m*phic)*(1 if m == 0 else np.sin(m*phih)/(m*phih))
            pre = mass*np.sqrt((2*l+1)/(4*np.pi))*np.exp((math.lgamma(l+m+1)+math.lgamma(l-m+1))/2)
            tot = 0
            for k in range((l-m)//2, -1, -1):
                p = 2*k+m+2
                tot += (-1)**(k+m)*H**(l-2*k-m)*(Ro**p-Ri**p)/(2.**(l-1)*p*math.exp(math.lgamma(k+1)+math.lgamma(m+k+1)+math.lgamma(l-m-2*k+2)))
            q[l, L+m] = pre*ang*tot/(Ro**2-Ri**2)
    return _finish(q, L)


def sphere(L, mass, R):
    if R <= 0:
        raise ValueError('Unphysical parameter arguments')
    q = np.zeros([L+1, 2*L+1], dtype='complex')
    q[0, L] = mass/np.sqrt(4*np.pi)
    return q
''', 'P13 P17 P19 P21 P22')
R['shapes-add'] = ('shapes.py', '''
def _add(self, shapes):
    if isinstance(shapes, Shape):
        shapes = [shapes]
    if not isinstance(shapes, list):
        raise TypeError('Shapes should be a Shape object or list of Shapes')
    every = [self, *shapes]
    if len({s.inner for s in every}) > 1:
        raise TypeError('Trying to combine inner and outer moments')
    top = max(s.lmax for s in every)
    mass = sum(s.mass for s in every)
    com = sum(s.mass*s.com for s in every)/mass
    q = sum(mplb.embed_qlm(s.qlm, top) for s in every)
    mesh = gcad.sum_mesh([s.mesh for s in every])
    self.mass, self.com, self.qlm, self.lmax, self.mesh = mass, com, q, top, mesh


def _rotate(self, alpha, beta, gamma):
    turn = rot.rotate_qlm if self.inner else lambda q, a, b, g: rot.rotate_qlm(q, -a, b, -g)
    self.qlm = turn(self.qlm, alpha, beta, gamma)
    self.mesh = gcad.rotate_mesh(self.mesh, alpha, beta, gamma)
    p = np.array([self.mass, *self.com])
    for ang, ax in ((gamma, 2), (beta, 1), (alpha, 2)):
        if ang:
            p = glb.rotate_point_array(p, ang, np.eye(3)[ax])
    self.com = p[1:]


Shape.add = _add
Shape.rotate = _rotate
''', 'P19 P22')
R['cad-rotate'] = ('genCAD.py', '''
def rotate_mesh(mesh, alpha, beta, gamma):
    result = mesh
    for ang, ax in ((gamma, (0, 0, 1)), (beta, (0, 1, 0)), (alpha, (0, 0, 1))):
        result = result.rotate((0, 0, 0), ax, np.degrees(ang))
    result.pmass = mesh.pmass
    return result


def rect_prism(pmass, H, a, b, phic):
    result = cq.Workplane("XY").box(a, b, H).rotate((0, 0, 0), (0, 0, 1), np.degrees(phic))
    result.pmass = pmass
    return result


def tri_iso_prism(pmass, H, a, d, phic):
    result = (cq.Workplane("XY", origin=(0, 0, -H/2)).polyline([(0, 0), (d, -a/2), (d, a/2)]).close().extrude(H))
    result.pmass = pmass
    return rotate_mesh(result, phic, 0, 0)
''', 'P20 P19 P22')
R['num-order'] = ('bigQlmNum.py', '''
_annulus = annulus


def annulus(L, dens, h1, h2, IR, OR, phih):
    q = _annulus(L, 1., h1, h2, IR, OR, phih)
    return dens*q
''', 'P15 P21')
R['mpc-helper'] = ('read_multiFor.py', '''
def _table(filename, filepath, ext, scale):
    if not filename.endswith(ext):
        filename = filename+ext
    with open(filepath+filename, 'r') as f:
        text = f.read().splitlines()
    print(text[0])
    L = int(text[1].split()[0])
    q = np.zeros([L+1, 2*L+1], dtype='complex')
    lm = ((l, m) for l in range(L+1) for m in range(l+1))
    for line, (l, m) in zip(text[9:], lm):
        re, im = line.split()[:2]
        v = complex(float(re), float(im))*scale(l)
        q[l, L+m] = v
        q[l, L-m] = (-1)**m*np.conj(v)
        if m == 0:
            q[l, L] = v.real
    return q


def read_gsq(filename, filepath='C:\\\\mom\\\\'):
    return _table(filename, filepath, '.gsq', lambda l: 1e-3*.01**l)


def read_gbq(filename, filepath='C:\\\\mom\\\\'):
    return _table(filename, filepath, '.gbq', lambda l: 1)
''', 'P18 P17 P22')


def check(name, jobs):
    f, code, props = R[name]
    d = f'/tmp/rf/{name}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d+'/evidence')
    shutil.copytree('/repo', d+'/r', symlinks=True)
    for x in ('mc', 'known_findings.txt', 'properties.jsonl'):
        (shutil.copytree if os.path.isdir(f'{HERE}/{x}') else shutil.copy)(f'{HERE}/{x}', f'{d}/{x}')
    with open(f'{d}/r/newt/{f}', 'a') as fh:
        fh.write(code)
    env = dict(os.environ, PYTHONPATH=f'{d}/r:{d}', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', VERIF_SEED='1', VERIF_TIER='quick')
    out = []
    for p in props.split():
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'mc.main', p, '--jobs', str(jobs)], env=env, cwd=d, capture_output=True, text=True)
        out.append(f'{p}:{"quiet" if r.returncode == 0 else "ALARM"}')
        if r.returncode:
            open(f'/tmp/rf/{name}-{p}.log', 'w').write(r.stdout+r.stderr)
    shutil.rmtree(d)
    return out


if __name__ == '__main__':
    a = sys.argv[1:]
    jobs = 8
    if '--jobs' in a:
        i = a.index('--jobs')
        jobs = int(a[i+1])
        del a[i:i+2]
    for name in a or R:
        print(name, *check(name, jobs), flush=True)
