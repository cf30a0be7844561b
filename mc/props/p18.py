"""Moment files."""
import itertools
import os
import numpy as np
from mc import oracle as o
from mc.alph import cloud
import newt.read_multiFor as rm

ASSUME = ['files are laid out as those written by MULTIN: nine header lines, the degree on the second, then one coefficient per line',
          'coefficients of order 0 are real']
FMT = {
    'sci': lambda x: f'{x:15.6E}', 'long': lambda x: f'  {float(x)!r}', 'fixed': lambda x: f'{x:.12f}', 'plus': lambda x: f'{x:+.15e}',
    'tab': lambda x: f'\t{x:.9e}', 'g': lambda x: f' {x:.17g}',
}
HEAD = {
    'multin': lambda L: [' test rectangle            ', f' {L}       0', '  3.932895E+02', '  3.932895E+02', '       .00000      .00000      .00000',
                         '     6131.921361939199000', '     2748.792334662400000', ' T F', '        .0000'],
    'numbers': lambda L: ['1 2', f'{L} 7 1.5 3', '1 2', '3 4', '5 6', '7 8', '9 10', '11 12', '13 14'],
    'words': lambda L: ['', f'\t{L}\tdegree', '', 'a', '', '', 'b', '% c', 'create'],
}


def tasks(tier, seed):
    Ls = (0, 1, 2, 3, 4, 5, 8) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 25)
    return [(tier, seed, L, kind) for L in Ls for kind in ('gsq', 'gbq')]+[(tier, seed, 0, 'hist')]+[(tier, seed, L, k) for L in ((9, 10, 11, 20, 101) if tier == 'quick' else (9, 11, 13, 20, 33, 64, 101, 120)) for k in ('big gsq', 'big gbq')]


def table(L, c):
    """c[l][m] for m>=0 -> full array"""
    q = np.zeros((L+1, 2*L+1), complex)
    for l in range(L+1):
        for m in range(l+1):
            q[l, L+m] = c[l, m]
            q[l, L-m] = (-1)**m*np.conj(c[l, m])
        q[l, L] = c[l, 0]
    return q


def write(path, L, c, fmt, head, end='\n', extra=''):
    f = FMT[fmt]
    rows = [f(c[l, m].real)+'  '+f(c[l, m].imag)+extra for l in range(L+1) for m in range(l+1)]
    with open(path, 'w') as fh:
        fh.write('\n'.join(HEAD[head](L)+rows)+end)
    # what the text says
    d = np.zeros((L+1, L+1), complex)
    for (l, m), r in zip([(l, m) for l in range(L+1) for m in range(l+1)], rows):
        a = r.split()
        d[l, m] = float(a[0])+1j*float(a[1])
    return d


def si(kind, L):
    return (1e-3*.01**np.arange(L+1))[:, None] if kind == 'gsq' else np.ones((L+1, 1))


def reader(kind):
    return rm.read_gsq if kind == 'gsq' else rm.read_gbq


def coefs(L):
    """single coefficients, real and imaginary, and dense tables"""
    out = []
    for l in range(L+1):
        for m in range(l+1):
            for v in ((1., 1j, -2.5+.75j) if m else (1., -3.25e4)):
                c = np.zeros((L+1, L+1), complex)
                c[l, m] = v
                out.append((f'{l},{m}={v}', c))
    q = o.inner(L, cloud(5, 2., 4))
    out.append(('cloud', np.array([[q[l, L+m] if m <= l else 0 for m in range(L+1)] for l in range(L+1)])))
    i = np.arange((L+1)**2).reshape(L+1, L+1)
    c = (1+i)*10.**(i % 7-3)+1j*(2+3*i)*(-1)**i
    c[:, 0] = c[:, 0].real
    out.append(('dense', np.tril(c)))
    # parts of very different size, next to each other
    for k in range(3):
        c = (1+i % 7)*10.**((5*i+k) % 29-14.)*(-1)**(i % 3)+1j*(2+i % 5)*10.**((11*i+7*k) % 31-15.)
        c[:, 0] = c[:, 0].real
        out.append((f'wide {k}', np.tril(c)))
    out.append(('zero', np.zeros((L+1, L+1), complex)))
    return out


def run(task, rec):
    tier, seed, L, kind = task
    d = f'm{os.getpid()}'
    os.makedirs(d+'/sub', exist_ok=True)
    if kind == 'hist':
        return hist(rec, d)
    if kind.startswith('big'):
        return big(rec, d, L, kind[4:])
    rd = reader(kind)
    for name, c in coefs(L):
        for fmt, head in itertools.product(FMT, HEAD):
            for end, extra, fname, direc in (('\n', '', 'a', d+'/'), ('', '', f'a.{kind}', d+'/sub/'), ('\n', '   0.5 1', 'a.b', os.path.abspath(d)+'/')):
                if fmt != 'sci' and head != 'multin' and extra:
                    continue
                p = direc+fname
                p = p if p.endswith('.'+kind) else p+'.'+kind
                case = [kind, L, name, fmt, head, fname]
                w = table(L, write(p, L, c, fmt, head, end, extra))*si(kind, L)
                r = rec.call(rd, fname, direc, _case=case, _what='read_'+kind)
                rec.state(case)
                rec.trace()
                rec.trans()
                rec.sample(file=case)
                # row by row: the scale of a degree is that of its conversion
                if r is None:
                    continue
                r = np.asarray(r)
                if r.shape != w.shape:
                    rec.fail('coefficients of the file: shape', case, [r.shape, w.shape])
                    continue
                # part by part: nothing is computed but the conversion of a degree
                rec.close(r.real, w.real, 'coefficients of the file', case, np.abs(w.real)+1e-290, 1e-12)
                rec.close(r.imag, w.imag, 'coefficients of the file', case, np.abs(w.imag)+1e-290, 1e-12)
                r *= 7
    # a file of moments in cgs gives the moments in SI
    if kind == 'gsq':
        for n in (1, 2, 5):
            pts = cloud(n, 3., n)
            q = o.inner(L, pts)
            c = np.array([[q[l, L+m] if m <= l else 0 for m in range(L+1)] for l in range(L+1)])
            write(f'{d}/p.gsq', L, c, 'long', 'multin')
            r = rec.call(rd, 'p', d+'/', _case=[L, n])
            w = o.inner(L, pts*[1e-3, .01, .01, .01])
            rec.trace()
            rec.state(('cgs', L, n))
            rec.close(r, w, 'conversion from cgs to SI', [L, n], np.abs(w).max(1)[:, None]+0*w.real, 1e-9)


def big(rec, d, L, kind):
    """degrees of two and three digits; tables cut short after any degree"""
    i = np.arange((L+1)**2).reshape(L+1, L+1)
    c = np.tril((1+i % 97)*10.**(i % 7-3)+1j*(2+3*(i % 89))*(-1)**i)
    c[:, 0] = c[:, 0].real
    sc = np.ones((L+1, 1))
    if kind == 'gsq':
        sc = np.array([[1e-3*.01**l] for l in range(L+1)])
    for head in HEAD:
        for cut in [None]+list(range(0, L, max(1, L//6))):
            p = f'{d}/big.{kind}'
            w = table(L, write(p, L, c, 'sci', head))*sc
            case = [kind, L, head, cut]
            if cut is not None:
                rows = open(p).read().split('\n')[:9+(cut+1)*(cut+2)//2]
                open(p, 'w').write('\n'.join(rows)+'\n')
                w[cut+1:] = 0
            r = rec.call(reader(kind), 'big', d+'/', _case=case, _what='read_'+kind)
            rec.state(case)
            rec.trace()
            rec.trans()
            rec.close(r, w, 'coefficients of the file', case, np.abs(w).max(1)[:, None]+0*w.real+1e-290, 1e-12)


def hist(rec, d):
    """files rewritten between readings, readings of both kinds and degrees in
    every order"""
    ops = [(k, L, v) for k in ('gsq', 'gbq') for L in (0, 2, 3) for v in (1., -2.)]
    for a in ops:
        for b in ops:
            for k, L, v in (a, b, a):
                c = np.tril(np.full((L+1, L+1), v*(1+.5j)))
                c[:, 0] = c[:, 0].real
                w = table(L, write(f'{d}/h.{k}', L, c, 'sci', 'multin'))*si(k, L)
                r = rec.call(reader(k), 'h', d+'/', _case=[a, b])
                rec.trace()
                rec.trans()
                rec.close(r, w, 'coefficients of the file', [a, b], np.abs(w).max(1)[:, None]+0*w.real, 1e-12)
                r[:] = 5
            rec.state((a, b))
    # relative directories mean what they say when they are used
    home = os.getcwd()
    try:
        for k, direc, order in itertools.product(('gsq', 'gbq'), ('mom/', './', '', '../a/'), itertools.product('ab', repeat=3)):
            for n, x in enumerate(order):
                here = os.path.join(home, d, x)
                os.makedirs(here+'/mom', exist_ok=True)
                os.makedirs(os.path.join(home, d, 'a'), exist_ok=True)
                os.chdir(here)
                c = np.full((1, 1), 1.+n+10*'ab'.index(x), complex)
                w = table(0, write(direc+'rel.'+k, 0, c, 'sci', 'multin'))*si(k, 0)
                case = ['directory', k, direc, order[:n+1]]
                r = rec.call(reader(k), 'rel', direc, _case=case)
                rec.state(case)
                rec.trace()
                rec.trans()
                rec.close(r, w, 'coefficients of the file', case, np.abs(w), 1e-12)
    finally:
        os.chdir(home)
