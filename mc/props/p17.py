"""Programs of multipole files (.mpc): the interpreter against a register
machine.  Every program up to the depth is written to a file and read."""
import itertools
import os
import numpy as np
from mc import oracle as o
from mc import bodies as b
from mc import families as F
from mc.engine import ImplError, Hang, canon
import newt.read_multiFor as rm

PI = np.pi
D = PI/180
ASSUME = ['lines are laid out as in the stored files (dimensions, density and position each on their own line); keywords do not occur inside other words',
          'after a shape that is not known, lines up to the next create or end belong to it']


def section(L, r, d, h):
    return b.cyl_section(L, h, r, d)


# name -> (body in the units of the file, dims)
SHAPES = {
    'cylinder': (lambda L, Ri, Ro, H, p0, p1: b.annulus(L, H, Ri, Ro, (p0+p1)/2*D, (p1-p0)/2*D),
                 [(0, 2, 3, 0, 360), (1, 2, 3, -30, 45), (.5, 1.5, .4, 100, 290), (0, 2, 1, -180, 180), (1, 2.5, 2, 350, 380)]),
    'sphere': (lambda L, r: b.ball(L, r), [(1.,), (2.5,), (.3,)]),
    'cone': (lambda L, lr, ur, h: b.frustum(L, h, lr, ur, 0, PI, 0.), [(2, 0, 3), (2, 1, 3), (1, 2, 3), (0, 2, 1.5), (1.5, 1.5, 2), (.2, 3, .5)]),
    'triangle': (lambda L, d, y1, y2, t: b.tri_prism(L, t, d, y1, y2), [(2, -1, 1, 1), (2, .5, 3, 1.5), (1, -3, -1, .3), (1.5, 2, -1, 1)]),
    'trapezoid': (lambda L, w1, w2, h, t: b.trapezoid(L, t, w1, w2, h), [(1, 2, 3, .5), (2, 1, 3, .5), (2, 2, 1, 1), (0, 2, 1.5, 1), (2, 0, 1.5, 2)]),
    'partcylinder': (section, [(2, 1, 1), (1.5, .2, 3), (2, 0, 1.3), (1, .9, .5)]),
    'tetrahedron': (lambda L, x, y, z: b.tet(L, [(0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z)]), [(1, 2, 3), (2, 2, .5)]),
    'platehole': (lambda L, r, t, th: b.platehole(L, t, r, th*D), [(1, 2, 0), (1, 2, 30), (.5, .7, -50)]),
    'cylhole': (lambda L, r, R: b.steinmetz(L, r, R), [(1, 2), (.5, .6)]),
    'pyramid': (lambda L, x, y, z: b.pyramid(L, x/2, y/2, z), [(1, 2, 3), (3, .5, 1)]),
    'rectangle': (lambda L, x, y, z: b.box(L, x, y, z), [(1, 2, 3), (3, .5, 1), (2, 2, 2)]),
}
SLOWSHAPES = ('cylhole',)
VALID = {'cylinder': lambda d: 0 <= d[0] < d[1] and .01 < d[4]-d[3] <= 360, 'cone': lambda d: d[0]+d[1] > 0, 'triangle': lambda d: d[1] < d[2],
         'trapezoid': lambda d: d[0]+d[1] > 0, 'partcylinder': lambda d: 0 <= d[1] < d[0], 'cylhole': lambda d: d[0] <= d[1],
         'platehole': lambda d: abs(d[2]) < 80}


def near_dims(s, tier):
    """dimensions next to the special ones (see P13)"""
    eps = [0.]+[g*e for e in ((1e-2, 1e-3, 1e-5, 1e-7) if tier == 'quick' else (3e-2, 1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7)) for g in (1, -1)]
    n = len(SHAPES[s][1][0])
    sz = LENGTHS.get(s, range(n))
    seen = []
    for d in SHAPES[s][1][:2 if tier == 'quick' else 4]:
        c = []
        for i in sz:
            for j in sz:
                if i != j:
                    c += [(i, d[j]*(1+e)) for e in eps]+[(i, d[j]*r*(1+e)) for r in (.5, 2) for e in eps[:3]]
            c += [(i, d[i]*t) for t in (1e-3, 1e2)]
        for i in set(range(n))-set(sz):
            c += [(i, a+e*10) for a in (0, 90, -90, 180, 45, 360) for e in eps]
        for i, v in c:
            g = tuple(float(v) if k == i else x for k, x in enumerate(d))
            if g not in seen and all(g[k] > 0 or SHAPES[s][1][0][k] <= 0 or d[k] <= 0 for k in sz) and VALID.get(s, lambda d: True)(g):
                seen.append(g)
    return seen


LENGTHS = {'cylinder': (0, 1, 2), 'platehole': (0, 1)}
UNIT = {'cmin': .01, 'inchin': .0254}


def ref_shape(L, name, dims, dens, pos, unit):
    """moments of the shape in SI, with its scale"""
    d = list(dims)
    for k in LENGTHS.get(name, range(len(d))):
        d[k] = d[k]*unit
    X, W = SHAPES[name][0](max(L, 2), *d)
    X = X+np.asarray(pos, float)*unit
    W = W*dens*1000
    q = o.rule_inner(L, (X, W))
    return q, (np.abs(W).sum(), np.sqrt((X**2).sum(1)).max())


def tolrow(L, mabs, reach):
    l = np.arange(L+1)
    return (mabs*reach**l*np.sqrt((2*l+1)/4/PI))[:, None]


class Machine:
    def __init__(self, L, parts):
        self.L, self.parts = L, parts
        z = np.zeros((L+1, 2*L+1), complex)
        self.tot, self.wrk = (z, (0., 0.)), (z, (0., 0.))
        self.unit, self.skip, self.done = .01, False, False

    def copy(self):
        m = Machine.__new__(Machine)
        m.__dict__.update(self.__dict__)
        return m

    def do(self, cmd):
        if self.done:
            return
        op = cmd[0]
        if self.skip and op not in ('create', 'unknown', 'end'):
            return
        self.skip = False
        q, (ma, re) = self.wrk
        if op == 'create':
            self.wrk = self.shape(*cmd[1:])
        elif op == 'unknown':
            self.skip = True
        elif op == 'add':
            t, (a, r) = self.tot
            self.tot = t+q, (a+ma, max(r, re))
        elif op == 'rotate':
            self.wrk = o.rotate_inner(q, o.euler_zyz(*np.array(cmd[1])*D)), (ma, re)
        elif op == 'translate':
            d = np.array(cmd[1], float)*self.unit
            self.wrk = o.translate_inner(q, d), (ma, re+np.linalg.norm(d))
        elif op in UNIT:
            self.unit = UNIT[op]
        elif op == 'load':
            self.wrk = self.parts[cmd[1]]
        elif op == 'zeroqlm':
            self.tot = self.tot[0]*0, (0., 0.)
        elif op == 'gettotal':
            self.wrk = self.tot
        elif op == 'puttotal':
            self.tot = self.wrk
        elif op == 'end':
            self.done = True

    _cache = {}

    def shape(self, name, dims, dens, pos):
        k = (self.L, name, tuple(dims), dens, tuple(pos), self.unit)
        if k not in self._cache:
            self._cache[k] = ref_shape(self.L, name, dims, dens, pos, self.unit)
        return self._cache[k]

    def key(self):
        return canon(self.tot[0], 13)+canon(self.wrk[0], 13)+repr((self.unit, self.skip, self.done)).encode()


FORMATS = [repr, lambda x: f'{x:+.16e}', lambda x: f' {float(x):.17g}', lambda x: f'{float(x)!r} ', lambda x: f'{float(x):.16E}']


def num(v, f=repr):
    return ','.join(f(x) for x in v)


def text(cmd, style=0):
    op = cmd[0]
    g = FORMATS[style-3] if style > 3 else repr
    c = '' if not style or style > 3 else ['', '  % remark: add rotate 1,2,3 create end', ' %', '\t'][style]
    if op == 'create':
        sep = ',' if style != 2 else ' , '
        f = lambda v: sep.join(g(x) for x in v)
        return [f'create {cmd[1]}{c}', f(cmd[2])+c, g(cmd[3])+c, f(cmd[4])+c]
    if op == 'unknown':
        return [f'create {cmd[1]}{c}', '1,2,3', '2.5', '0,0,0']
    if op in ('rotate', 'translate'):
        return [f'{op} {num(cmd[1], g)}{c}']
    if op == 'load':
        return [f'load {cmd[1]}']
    if op == 'nsteps':
        return ['nsteps 30'+c]
    if op == 'comment':
        return ['% create sphere add']
    if op == 'blank':
        return ['']
    return [op+c]


class Disk:
    def __init__(self, L):
        self.dir = f'w{os.getpid()}'
        for s in ('mpc', 'mom'):
            os.makedirs(os.path.join(self.dir, s), exist_ok=True)
        self.path = self.dir+'/mpc/'
        self.parts = {}
        rng = [[1.3, .4, -.2, .6], [.4, -1., .3, .2], [2., .1, .9, -1.]]
        for n, sc in (('part', 1.), ('arm', -.5)):
            pts = np.array(rng)*[sc, 1, 1, 1]
            q = o.inner(L, pts)      # in g cm^l
            with open(f'{self.dir}/mom/{n}.gsq', 'w') as f:
                f.write(f'{n}\n{L} 0 0\n'+'h\n'*7)
                for l in range(L+1):
                    for m in range(l+1):
                        f.write(f' {float(q[l, L+m].real)!r}  {float(q[l, L+m].imag)!r}\n')
            si = q*(1e-3*.01**np.arange(L+1))[:, None]
            self.parts[n] = si, (np.abs(pts[:, 0]).sum()*1e-3, .02)
        with open(f'{self.dir}/mom/other.gsq', 'w') as f:
            f.write(f'x\n{L+1} 0\n'+'h\n'*7+'1 0\n'*((L+2)*(L+3)//2))

    def write(self, lines, name='prog', title='a title: create sphere, add', nl='\n', end='\n'):
        with open(f'{self.path}{name}.mpc', 'w', newline='') as f:
            f.write(nl.join([title]+lines)+end)

    def read(self, L, name='prog'):
        return rm.read_mpc(L, name, self.path)


ALPH = [('create', 'sphere', (1.,), 2.5, (1., -2., .5)), ('create', 'rectangle', (1., 2., 3.), 1.2, (0., 0., 0.)),
        ('create', 'cylinder', (.5, 1.5, 2., -30., 75.), -1., (0., 0., 0.)), ('unknown', 'torus'),
        ('add',), ('rotate', (20., 50., -70.)), ('translate', (1., .5, -2.)), ('gettotal',), ('puttotal',), ('zeroqlm',), ('inchin',), ('cmin',),
        ('load', 'part'), ('load', 'arm.gsq'), ('end',), ('comment',)]
EXTRA = [('create', 'cone', (2., 1., 3.), .3, (0., 0., 0.)), ('create', 'trapezoid', (2., 1., 3., .5), 8., (0., 0., 1.)), ('rotate', (90., 0., 0.)),
         ('translate', (0., 0., 0.)), ('nsteps',), ('blank',), ('unknown', 'spheroid')]


def debruijn(k, n):
    """cyclic sequence containing every word of length n once"""
    a, out = [0]*k*n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p+1])
        else:
            a[t] = a[t-p]
            db(t+1, p)
            for j in range(a[t-p]+1, k):
                a[t] = j
                db(t+1, t)
    db(1, 1)
    return out+out[:n-1]


def tasks(tier, seed):
    deep = tier != 'quick'
    t = [(tier, seed, 'bfs', 3, i, 4 if not deep else 5) for i in range(len(ALPH))]
    t += [(tier, seed, 'bfsx', 2, i, 2 if not deep else 3) for i in range(len(ALPH)+len(EXTRA))]
    t += [(tier, seed, 'scripts', 4, i, 0) for i in range(8)]
    for s in SHAPES:
        Ls = [0, 1, 2, 3, 5] if s != 'cylhole' else [0, 1, 2]
        if deep and s not in ('cylhole', 'platehole'):
            Ls = Ls+[4, 8, 12]
        t += [(tier, seed, 'shape', s, L, 0) for L in Ls]
        for L in ([2, 8] if s not in SLOWSHAPES else [1]) if not deep else [2, 8, 12] if s not in SLOWSHAPES else [2]:
            t.append((tier, seed, 'near', s, min(L, 5) if s == 'platehole' else L, 0))
    t.append((tier, seed, 'misc', 2, 0, 0))
    t += [(tier, seed, 'angles', 3, i, 0) for i in range(4)]+[(tier, seed, 'moves', 3, 0, 0), (tier, seed, 'light', 3, 0, 0)]
    t += [(tier, seed, 'degrees', s, i, 0) for s in SHAPES if s not in SLOWSHAPES for i in range(2)]
    t += [(tier, seed, 'long', 2, i, 0) for i in range(4)]
    return sorted(t, key=lambda x: (x[3] != 'cylhole', x[2] != 'bfs'))


def run_prog(rec, disk, L, cmds, style=0, case=None, m=None, name='prog', fname='prog'):
    if m is None:
        m = Machine(L, {**disk.parts, 'arm.gsq': disk.parts['arm']})
        for c in cmds:
            m.do(c)
    lines = sum([text(c, style) for c in cmds], [])
    disk.write(lines, name)
    case = case or [L, ' ; '.join(lines)]
    r = rec.call(disk.read, L, fname, _case=case, _what='read_mpc')
    rec.trace()
    q, (ma, re) = m.tot
    rec.close(r, q, 'total moments of the program', case, tolrow(L, ma, re)+0*q.real+1e-18, 1e-8)
    return m


def run(task, rec):
    tier, seed, mode = task[:3]
    if mode in ('bfs', 'bfsx'):
        L, i, depth = task[3:]
        A = ALPH if mode == 'bfs' else ALPH+EXTRA
        disk = Disk(L)
        m0 = Machine(L, {**disk.parts, 'arm.gsq': disk.parts['arm']})
        first = A[i]
        m1 = m0.copy()
        m1.do(first)
        run_prog(rec, disk, L, [first], 0, None, m1)
        frontier = [((first,), m1)]
        seen = {m0.key(), m1.key()}
        rec.state(m0.key())
        rec.state(m1.key())
        for d in range(1, depth):
            nxt = []
            for hist, m in frontier:
                for c in A:
                    m2 = m.copy()
                    m2.do(c)
                    h2 = hist+(c,)
                    rec.trans()
                    run_prog(rec, disk, L, h2, (len(seen)+d) % 3, None, m2)
                    k = m2.key()
                    rec.state(k)
                    # histories that end in the same registers are continued
                    # only once
                    if k in seen and d > 1:
                        continue
                    seen.add(k)
                    rec.sample(program=h2)
                    nxt.append((h2, m2))
            frontier = nxt
    elif mode == 'scripts':
        L, i = task[3:5]
        disk = Disk(L)
        # build an assembly, store it, rotate copies of it around: all orders
        ops = [('create', 'cone', (2., 1., 3.), .3, (0., 0., 0.)), ('add',), ('gettotal',), ('rotate', (120., 0., 0.)), ('puttotal',), ('inchin',),
               ('translate', (1., .5, -2.))]
        for n, p in enumerate(itertools.permutations(ops)):
            if n % 8 != i or (tier == 'quick' and (n//8) % 3):
                continue
            run_prog(rec, disk, L, p+(('add',),), n % 3)
            rec.state(p)
            rec.trans(len(p))
    elif mode == 'shape':
        s, L = task[3:5]
        disk = Disk(L)
        slow = s == 'cylhole'
        m = Machine(L, disk.parts)
        POS = [(0., 0., 0.), (1.5, 0., -2.), (0, 0, 3), (-.4, 2.2, 1)]
        if slow:
            POS = POS[:2]
        # unphysical radii or more than one turn are not programs
        for n, (dims, dens, pos, unit, tail) in enumerate(itertools.product(SHAPES[s][1] if not slow or L < 2 else SHAPES[s][1][:1], (2.7, -1., 19, 0.),
                                                                            POS, (None, 'inchin', 'cmin'), range(5))):
            if slow and (n % 7 or dens in (19, 0.)):
                continue
            if tier == 'quick' and not slow and (n*7+seed*0) % 3 and not (tail == 0 and dens == 2.7):
                continue
            cr = ('create', s, dims, dens, pos)
            prog = [(unit,)] if unit else []
            prog += {0: [cr, ('add',)], 1: [cr, ('comment',), ('add',)], 2: [cr, ('rotate', (30., 40., -50.)), ('add',)],
                     3: [cr, ('add',), cr, ('translate', (.5, 1., 0.)), ('add',)], 4: [cr, cr, ('add',), ('add',), ('end',), ('add',)]}[tail]
            rec.state((L, str(prog)))
            rec.trans(len(prog))
            rec.sample(program=prog)
            tol = None
            m = Machine(L, disk.parts)
            for c in prog:
                m.do(c)
            if slow:
                q, (ma, re) = m.tot
                m.tot = q, (max(ma, 1e-6)*1e4, re)
            run_prog(rec, disk, L, prog, n % 3, None, m, fname='prog' if n % 2 else 'prog.mpc')
    elif mode == 'long':
        # one program in which every pair of commands occurs, stopped at many
        # points; the numbers written in every format
        L, i = task[3:5]
        disk = Disk(L)
        A = [c for c in ALPH+EXTRA if c[0] not in ('end', 'puttotal')]
        A = A[i:]+A[:i]
        seq = [A[k] for k in debruijn(len(A), 2)]
        for n in list(range(1, len(seq), 23 if tier == 'quick' else 7))+[len(seq)]:
            run_prog(rec, disk, L, seq[:n]+[('add',)], (n//7) % 8, [L, 'long', i, n])
            rec.state(('long', i, n))
            rec.trans(n)
        many = [ALPH[0], ('rotate', (20., 50., -70.)), ('add',), ('inchin',), ALPH[1], ('add',), ('cmin',), ('load', 'part'), ('add',)]*(40 if tier == 'quick' else 200)
        run_prog(rec, disk, L, many[i:], i, [L, 'many shapes', i])
        rec.state(('many', i))
        for st in range(8):
            for c in A:
                run_prog(rec, disk, L, [ALPH[1], ('inchin',), c, ('add',), c, ('add',)], st)
                rec.state(('format', st, str(c)))
                rec.trans(6)
    elif mode == 'degrees':
        # every degree, and densities from vacuum to a neutron star
        s, i = task[3:5]
        top = 5 if s == 'platehole' else 16 if tier == 'quick' else 24
        slack = s in ('partcylinder', 'platehole')
        for k, L in enumerate([*range(i, top+1, 2), np.int64(3), np.int32(2)]):
            disk = Disk(int(L))
            for n, dims in enumerate(SHAPES[s][1][:2]):
                for dens in ((2.7,) if k != 2 else (2.7, 1e-5, 40., 2e3, 1e9, -7., 3)):
                    prog = [('create', s, dims, dens, ((0., 0., 0.), (1.5, -.4, 1.))[n]), ('add',)]+[('rotate', (20., 50., -70.)), ('add',)]*n
                    m = Machine(int(L), disk.parts)
                    for c in prog:
                        m.do(c)
                    q, (ma, re) = m.tot
                    m.tot = q, (ma+(re**3*1e3*1e-7*dens if slack else 0), re)
                    rec.state((s, repr(L), str(prog)))
                    rec.trans(len(prog))
                    run_prog(rec, disk, L, prog, 0, [repr(L), str(prog)], m)
    elif mode == 'angles':
        # every triple of angles in degrees, in which a shortcut could see no turn or a turn about one axis
        L, i = task[3:5]
        disk = Disk(L)
        V = (0., 90., -90., 180., 360., 45., -120., 725.5, -3600.25, .01) if tier == 'quick' else (0., 90., -90., 180., -180., 270., 360., 45., -120., 725.5, 1e5, -3600.25, 1e-4, .01)
        for n, e in enumerate(itertools.product(V, repeat=3)):
            if n % 4 == i:
                run_prog(rec, disk, L, [('load', 'part'), ('rotate', e), ('add',)], 0)
                rec.state(('angles', e))
                rec.trans(3)
    elif mode == 'moves':
        L = task[3]
        disk = Disk(L)
        V = (0., 1.5, -1.5, 20., 1e-6, -700.)
        for n, d in enumerate(itertools.product(V, repeat=3)):
            for unit in ('cmin', 'inchin'):
                run_prog(rec, disk, L, [(unit,), ('load', 'part'), ('translate', d), ('add',)], 0)
                run_prog(rec, disk, L, [(unit,), ('create', 'rectangle', (1., 2., 3.), 1.2, d), ('add',)], 0)
                rec.state(('moves', unit, d))
                rec.trans(8)
    elif mode == 'light':
        # light parts next to heavy ones: a ball at the origin has no moments but its mass
        L = task[3]
        disk = Disk(L)
        for heavy in (1., 2e4, 1e9):
            for dens in (1., 1e-4, 1e-7, 1e-11, -1e-5, 1e-16):
                for sh in (ALPH[1], ALPH[2], EXTRA[0]):
                    for order in range(3):
                        ball = [('create', 'sphere', (2.,), heavy, (0., 0., 0.)), ('add',)]
                        part = [sh[:3]+(dens, (3., -1., 2.)), ('rotate', (20., 50., -70.)), ('add',)]
                        prog = [ball+part, part+ball, ball+part+[('gettotal',), ('rotate', (30., 0., 10.)), ('puttotal',)]][order]
                        disk.write(sum([text(c) for c in prog], []))
                        case = ['light', heavy, dens, sh[1], order]
                        r = rec.call(disk.read, L, 'prog', _case=case, _what='read_mpc')
                        ms = [Machine(L, disk.parts) for k in range(2)]
                        for c in prog:
                            ms[0].do(c)
                        for c in part:
                            ms[1].do(c)
                        ma, re = ms[1].tot[1]
                        # (rounding of what the heavy one leaves in the higher degrees)
                        tl = tolrow(L, ma, re)+tolrow(L, ms[0].tot[1][0], .02)*1e-6
                        tl[0] += ms[0].tot[1][0]
                        rec.close(r, ms[0].tot[0], 'total moments of the program', case, tl+0*r.real, 1e-8)
                        rec.state(case)
                        rec.trace()
                        rec.trans(len(prog))
    elif mode == 'near':
        s, L = task[3:5]
        disk = Disk(L)
        geos = near_dims(s, tier)
        for n, dims in enumerate(geos[::6] if s in SLOWSHAPES else geos):
            prog = [('create', s, dims, 2.7, ((0., 0., 0.), (1.5, 0., -2.))[n % 2]), ('add',)]
            rec.state((L, str(prog)))
            rec.trans(2)
            m = Machine(L, disk.parts)
            for c in prog:
                m.do(c)
            q, (ma, re) = m.tot
            # the remainder of a large part is known to the rounding of that part
            m.tot = q, (ma*1e4 if s in SLOWSHAPES else ma+(re**3*1e3*1e-7 if s in ('partcylinder', 'platehole') else 0), re)
            run_prog(rec, disk, L, prog, 0, None, m)
    else:
        L = 2
        disk = Disk(L)
        m = Machine(L, disk.parts)
        # a stored part of another degree cannot be loaded
        for pre in ([], [ALPH[0], ('add',)], [ALPH[0], ('gettotal',)]):
            disk.write(sum([text(c) for c in pre+[('load', 'other'), ('add',)]], []))
            rec.state(('other', str(pre)))
            rec.trace()
            rec.trans()
            try:
                disk.read(L)
                rec.fail('a part of another degree was loaded', pre, '')
            except Hang:
                raise
            except TypeError:
                pass
            except Exception as e:
                rec.fail('a part of another degree was refused with another error', pre, repr(e))
        # several files, read in any order and repeatedly
        progs = [[ALPH[0], ('add',)], [('inchin',), ALPH[1], ('add',)], [('load', 'part'), ('add',)], [ALPH[1], ('rotate', (20., 50., -70.)), ('add',)]]
        for a, c, e in itertools.product(range(4), repeat=3):
            for k in (a, c, e):
                run_prog(rec, disk, L, progs[k], 0, None, None, name=f'f{k}', fname=f'f{k}')
            rec.state(('files', a, c, e))
            rec.trans(3)
        # ends of lines and of the file
        for k, cmds in enumerate(progs+[[ALPH[0], ('add',), ('end',)], [c for c in ALPH if c[0] not in ('end', 'unknown')], [('create', 'sphere', (1.,), 2.5, (0., 0., 0.)), ('add',)]]):
            lines = sum([text(c) for c in cmds], [])
            for nl in ('\n', '\r\n'):
                for end in ('', nl, nl*3, nl+'  '+nl, nl+'%'+nl, nl+'% the end'):
                    for title in ('', ' ', 'x', '%', '% create', 'add', 'create sphere', 'end', 'T'*300, 'half inch bolt', 'inchin', 'cmin', '2 inches, 5 cm, mm', 'total working zeroqlm gettotal puttotal', 'rotate 1,2,3', 'load part', '1,2,3', 'TITLE IN INCH', 'nsteps 3'):
                        disk.write(lines, title=title, nl=nl, end=end)
                        m = Machine(L, {**disk.parts, 'arm.gsq': disk.parts['arm']})
                        for c in cmds:
                            m.do(c)
                        case = [L, 'ends', k, nl, end, title[:9]]
                        r = rec.call(disk.read, L, 'prog', _case=case, _what='read_mpc')
                        rec.close(r, m.tot[0], 'total moments of the program', case, tolrow(L, *m.tot[1])+0*r.real+1e-18, 1e-8)
                        rec.state(case)
                        rec.trace()
        # empty programs
        for prog in ([], [('end',)], [('blank',)], [('blank',), ('blank',), ALPH[0], ('blank',), ('add',), ('blank',)]):
            for st in (0, 1, 2):
                run_prog(rec, disk, L, prog, st)
                rec.state(str(prog))
                rec.trans()
