"""Predicate coverage (a development aid, no check uses it): which special cases
of the arguments of each function a check ever visits.
usage: predcov.py OUT PID [main options]   record (appends "function predicate" lines to OUT)
       predcov.py --report OUT ...         predicates never visited, by function"""
import importlib
import inspect
import os
import sys
import numpy as np

sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
MODS = 'glib glibShapes gShapeGL pg2Multi qlm qlmACH qlmNum bigQlm bigQlmNum clebschGordan multipoleLib rotations translations translationRecurs read_multiFor genCAD shapes'.split()
PI = np.pi
ANG = ('phi', 'phic', 'phih', 'theta', 'alpha', 'beta', 'gamma', 'angle', 'angles')


def scal(n, v, isang):
    f = float(v)
    a = abs(f)
    out = {f'{n}==0': f == 0, f'{n}<0': f < 0, f'{n}>0': f > 0, f'{n} int type': isinstance(v, (int, np.integer)) and not isinstance(v, bool),
           f'{n} numpy scalar': isinstance(v, np.generic), f'{n} 0-d array': isinstance(v, np.ndarray)}
    if isang:
        t = a/(PI/2)
        k = round(t)
        out.update({f'{n} tiny': 0 < a < 1e-5, f'{n} small': 1e-5 <= a < 1e-2, f'{n}>pi': a > PI+1e-9, f'{n}>2pi': a > 2*PI+1e-9, f'{n}>20': a > 20, f'{n}<-pi': f < -PI-1e-9,
                    f'{n} near multiple of pi/2': k and 0 < abs(t-k) < 1e-4, f'{n} multiple of pi/2': abs(t-k) < 1e-14 and k,
                    f'{n}==pi': a == PI, f'{n}==pi/2': a == PI/2, f'{n}==pi/4,pi/3': abs(a-PI/4) < 1e-12 or abs(a-PI/3) < 1e-12})
    elif n.lower() in ('l', 'lmax', 'm', 'n', 'nx', 'ny', 'nz', 'dx', 'dy', 'dz', 'dd', 'lm', 'j1', 'j2', 'm1', 'm2', 'j', 'p', 'lnew') and isinstance(v, (int, np.integer)):
        out.update({f'{n} {k}': v == k for k in range(0, 13)})
        out.update({f'{n}>12': v > 12, f'{n}>20': v > 20, f'{n}>30': v > 30})
    else:
        out.update({f'{n}<1e-6': 0 < a < 1e-6, f'{n}<1e-3': 1e-6 <= a < 1e-3, f'{n} 1e-3..1': 1e-3 <= a < 1, f'{n} 1..10': 1 <= a < 10, f'{n} 10..1e3': 10 <= a < 1e3,
                    f'{n}>1e3': a >= 1e3, f'{n} whole': f == int(f) if a < 1e15 else False})
    return out


def vec(n, v):
    x = np.asarray(v, float)
    r = np.linalg.norm(x)
    out = {f'{n} list': isinstance(v, (list, tuple)), f'{n} ints': np.asarray(v).dtype.kind == 'i', f'{n} null': r == 0}
    if r == 0 or x.shape != (3,):
        return out
    nz = np.flatnonzero(x)
    if len(nz) == 1:
        out[f'{n} along {"-+"[int(x[nz[0]] > 0)]}{"xyz"[nz[0]]}'] = True
    for i in range(3):
        out[f'{n} in plane {"xyz"[i]}=0'] = len(nz) == 2 and x[i] == 0
        out[f'{n} near plane {"xyz"[i]}=0'] = 0 < abs(x[i]) < 1e-5*r
    out[f'{n} octant {"".join("-+"[int(t > 0)] for t in x)}'] = len(nz) == 3
    out.update({f'{n} tiny': r < 1e-6, f'{n} small': 1e-6 < r < 1e-2, f'{n} large': r > 1e3, f'{n} zero sum': x.sum() == 0, f'{n} equal comps': len(set(np.abs(x[nz]))) < len(nz)})
    return out


def arr(n, v):
    a = np.asarray(v)
    if a.dtype.kind in 'c' or (a.ndim == 2 and a.shape[1] == 2*a.shape[0]-1 and a.shape[1] != 4):
        L = a.shape[0]-1
        b = np.abs(a)
        out = {f'{n} L={min(L, 30)}': True, f'{n} noncontiguous': isinstance(v, np.ndarray) and not v.flags.c_contiguous, f'{n} fortran': isinstance(v, np.ndarray) and v.flags.f_contiguous and not v.flags.c_contiguous,
               f'{n} read only': isinstance(v, np.ndarray) and not v.flags.writeable, f'{n} real dtype': a.dtype.kind != 'c', f'{n} complex64': a.dtype == np.complex64, f'{n} single entry': (b > 0).sum() == 1, f'{n} zero': not b.any(),
               f'{n} dense': (b > 0).sum() >= (L+1)**2, f'{n} real': b.any() and not a.imag.any() if a.dtype.kind == 'c' else False, f'{n} m=0 only': b.any() and a.ndim == 2 and not np.delete(b, L, 1).any(),
               f'{n} even l only': b.any() and L > 1 and not b[1::2].any(), f'{n} odd l only': b.any() and not b[0::2].any(), f'{n} no monopole': b.any() and not b[0].any(), f'{n} no dipole': L > 1 and b.any() and not b[1].any() and b[0].any(),
               f'{n} tiny': b.any() and b.max() < 1e-9, f'{n} huge': b.any() and b.max() > 1e6, f'{n} not conj symmetric': a.ndim == 2 and b.any() and not np.allclose(a[:, ::-1].conj()*(-1.)**np.arange(-L, L+1), a, atol=1e-9*b.max())}
        return out
    out = {f'{n} {a.ndim}-d': True, f'{n} noncontiguous': isinstance(v, np.ndarray) and not v.flags.c_contiguous, f'{n} ints': a.dtype.kind == 'i', f'{n} float32': a.dtype == np.float32, f'{n} list': isinstance(v, (list, tuple)),
           f'{n} read only': isinstance(v, np.ndarray) and not v.flags.writeable}
    if a.ndim == 2 and a.shape[1:] == (4,) and a.dtype.kind in 'fi':
        N = len(a)
        m, x = a[:, 0], a[:, 1:].astype(float)
        r = np.sqrt((x**2).sum(1))
        for lo, hi in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 9), (10, 99), (100, 999), (1000, 9999), (10000, 10**9)):
            out[f'{n} rows {lo}-{hi}'] = lo <= N <= hi
        if N:
            out.update({f'{n} zero mass': (m == 0).any(), f'{n} negative mass': (m < 0).any(), f'{n} all negative': (m < 0).all(), f'{n} zero total': N > 1 and abs(m.sum()) < 1e-12*abs(m).sum(), f'{n} equal masses': N > 1 and (m == m[0]).all(),
                        f'{n} at origin': (r == 0).any(), f'{n} only origin': (r == 0).all(), f'{n} near origin': ((r > 0) & (r < 1e-6*max(r.max(), 1e-300))).any(), f'{n} on z axis': ((x[:, :2] == 0).all(1) & (r > 0)).any(), f'{n} all on z axis': (x[:, :2] == 0).all() and N > 1,
                        f'{n} plane z=0': (x[:, 2] == 0).all() and N > 1, f'{n} plane x=0': (x[:, 0] == 0).all() and N > 1, f'{n} all below': (x[:, 2] < 0).all() and N > 1, f'{n} repeated rows': N < 2000 and len({tuple(t) for t in x}) < N,
                        f'{n} tiny': 0 < r.max() < 1e-6, f'{n} huge': r.max() > 1e3, f'{n} masses apart 1e6': (m != 0).any() and abs(m).max() > 1e6*abs(m[m != 0]).min(), f'{n} radii apart 1e6': (r > 0).any() and r.max() > 1e6*r[r > 0].min(),
                        f'{n} centred': N > 1 and m.sum() != 0 and np.abs(m @ x).max() < 1e-12*(abs(m) @ r), f'{n} sphere shell': N > 1 and r.max() > 0 and np.ptp(r) < 1e-12*r.max(), f'{n} near z axis': ((r > 0) & (np.hypot(x[:, 0], x[:, 1]) > 0) & (np.hypot(x[:, 0], x[:, 1]) < 1e-5*r)).any()})
    elif a.ndim == 1 and a.shape == (4,) and a.dtype.kind in 'fi':
        out.update({f'{n} row zero mass': a[0] == 0, f'{n} row negative': a[0] < 0, f'{n} row at origin': not a[1:].any()})
    else:
        out[f'{n} size {a.size if a.size < 4 else "4+"}'] = True
        out[f'{n} size>1000'] = a.size > 1000
    return out


def preds(names, args):
    out = {}
    sc = {}
    for n, v in zip(names, args):
        try:
            if isinstance(v, (bool, np.bool_)):
                out[f'{n}={bool(v)}'] = True
            elif isinstance(v, str):
                out[f'{n} str {v if len(v) < 12 and n.startswith("trans") else ""}'] = True
            elif np.ndim(v) == 0 and np.isreal(v) and v is not None and not isinstance(v, str):
                out.update(scal(n, v, n.lower() in ANG))
                sc[n] = float(v)
            elif isinstance(v, (list, tuple)) and v and np.ndim(v[0]) == 2:
                out[f'{n} matrices {len(v)}'] = True
            elif np.shape(v) == (3,):
                out.update(vec(n, v))
            elif isinstance(v, (np.ndarray, list, tuple)) and np.asarray(v).dtype.kind in 'fic':
                out.update(arr(n, v))
        except Exception:
            pass
    L = [n for n in sc if n.lower() not in ('l', 'lmax', 'cnst', 'mass', 'dens', 'rho', 'rho0')]
    for i, p in enumerate(L):
        for q in L[:i]:
            if (p.lower() in ANG) != (q.lower() in ANG):
                continue
            a, b = sc[p], sc[q]
            d = abs(a-b)
            out.update({f'{q}=={p}': a == b, f'{q}~{p}': 0 < d < 1e-4*max(abs(a), abs(b)), f'{q}==-{p}': a == -b and a, f'{q}<{p}': b < a, f'{q}>{p}': b > a})
            if p.lower() not in ANG:
                out.update({f'{q}<<{p}': 0 < abs(b) < 1e-2*abs(a), f'{q}>>{p}': abs(b)*1e-2 > abs(a) > 0, f'{q}==2{p}': b == 2*a and a, f'{p}==2{q}': a == 2*b and b})
    if len(args) > 1:
        for i, p in enumerate(args):
            for j in range(i):
                if isinstance(p, np.ndarray) and p is args[j]:
                    out[f'{names[j]} is {names[i]}'] = True
    return out


KEYS = {}
SEEN = {}
DEPTH = [0]


def wrap(f, name, fd, skip=0):
    try:
        names = list(inspect.signature(f).parameters)
    except ValueError:
        return f
    for n in names[skip:]:
        pass
    seen = SEEN.setdefault(name, {})

    def w(*a, **k):
        if DEPTH[0]:
            return f(*a, **k)
        DEPTH[0] += 1
        try:
            args = list(a[skip:])+[k[n] for n in names[len(a):] if n in k]
            nm = names[skip:len(a)]+[n for n in names[len(a):] if n in k]
            for p, hit in preds(nm, args).items():
                s = seen.get(p)
                if s is None or (s == 0 and hit):
                    seen[p] = int(bool(hit))
                    os.write(fd, f'{name}\t{p}\t{int(bool(hit))}\n'.encode())
            return f(*a, **k)
        finally:
            DEPTH[0] -= 1
    w.__wrapped__ = f
    w.__name__ = f.__name__
    w.__signature__ = inspect.signature(f)
    return w


def record(out, argv):
    fd = os.open(out, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    for m in MODS:
        mod = importlib.import_module('newt.'+m)
        for n, f in list(vars(mod).items()):
            if inspect.isfunction(f) and f.__module__ == mod.__name__:
                setattr(mod, n, wrap(f, f'{m}.{n}', fd))
        if m == 'shapes':
            for n, c in list(vars(mod).items()):
                if inspect.isclass(c):
                    for k, g in list(vars(c).items()):
                        if inspect.isfunction(g):
                            setattr(c, k, wrap(g, f'{m}.{n}.{k}', fd, 1))
    sys.argv = ['main']+argv
    from mc import main
    sys.exit(main.main())


def report(files):
    tab = {}
    for fn in files:
        for line in open(fn):
            f, p, h = line.rstrip('\n').split('\t')
            t = tab.setdefault(f, {})
            t[p] = max(t.get(p, 0), int(h))
    for f in sorted(tab):
        miss = [p for p, h in tab[f].items() if not h]
        print(f'{f}: {len(tab[f])-len(miss)}/{len(tab[f])} missing: {"; ".join(miss)}')


if sys.argv[1] == '--report':
    report(sys.argv[2:])
else:
    record(os.path.abspath(sys.argv[1]), sys.argv[2:])
