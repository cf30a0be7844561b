"""Histories of solid objects (newt.shapes)."""
import copy
import itertools
import os
import tempfile
import numpy as np
from mc import oracle as o
from mc import bodies as b
from mc import families as F
from mc.engine import bfs, canon, NotApplicable, ImplError, Hang
from mc.props.p17 import debruijn
import newt.shapes as sh

PI = np.pi
ASSUME = ['bodies are added while they are disjoint from the body they are added to, or not looked at through their CAD mesh',
          'histories whose net mass is zero are excluded: the centre of mass is undefined there']


def shift(rule, d):
    return rule[0]+np.asarray(d, float), rule[1]


# kind -> (constructor of (lmax, inner, mass, geometry), body(L, geometry), geometries)
KINDS = {
    'Annulus': (lambda l, i, m, g: sh.Annulus(l, i, m, *g), lambda L, g: b.annulus(L, *g),
                [(1., .2, 1., .3, .5), (.4, 0., 1.3, -2., PI), (2., .7, .9, 0., 1.9), (.1, .5, 2., 4., PI/2), (1, 1, 2, 0, 1)]),
    'RectPrism': (lambda l, i, m, g: sh.RectPrism(l, i, m, *g), lambda L, g: b.rot_z(b.box(L, g[1], g[2], g[0]), g[3]),
                  [(1., .5, 2., 0.), (.3, 1.2, .8, .7), (2, 1, 1, -2.4)]),
    'TriPrism': (lambda l, i, m, g: sh.TriPrism(l, i, m, *g), lambda L, g: b.tri_prism(L, *g),
                 [(1., .5, -.2, .9), (.6, 1.3, .3, .8), (2., 1., -1., -.2)]),
    'Cone': (lambda l, i, m, g: sh.Cone(l, i, m, *g), lambda L, g: b.frustum(L, g[0], g[1], 0., g[2], g[3], 0.),
             [(1., .5, .4, .6), (.6, 1.3, 0., PI), (2., 1., -1., 2.)]),
    'Sphere': (lambda l, i, m, g: sh.Sphere(l, i, m, *g), lambda L, g: shift(b.ball(L, g[0]), g[1]),
               [(.5, [0, 0, 0]), (1., [.3, -.4, .7]), (.2, (1, 0, 0)), (.3, np.array([0, -2., .5]))]),
    'NGon': (lambda l, i, m, g: sh.NGon(l, i, m, *g), lambda L, g: b.ngon(L, *g),
             [(1., .5, .4, 3), (.6, 1.3, 0., 4), (2., 1., -1., 5), (.2, .6, .1, 6)]),
    'Tetrahedron': (lambda l, i, m, g: sh.Tetrahedron(l, i, m, *g),
                    lambda L, g: b.tet(L, [(0, 0, 0), (g[0], g[1], 0), (g[0], g[2], 0), (0, 0, g[3])]),
                    [(1., -.2, .9, .7), (.6, .3, .8, 1.2), (2., -1., -.2, .5)]),
    'Pyramid': (lambda l, i, m, g: sh.Pyramid(l, i, m, *g), lambda L, g: b.pyramid(L, *g),
                [(1., .5, .7), (.3, .8, 1.2), (1, 1, 2)]),
    'Cylhole': (lambda l, i, m, g: sh.Cylhole(l, i, m, *g), lambda L, g: b.steinmetz(L, *g), [(.5, 1.), (.4, .7)]),
    'Platehole': (lambda l, i, m, g: sh.Platehole(7, l, i, m, *g), lambda L, g: b.platehole(L, *g), [(1., .5, .4), (.3, .6, -.7)]),
    'Annulus outer': (lambda l, i, m, g: sh.Annulus(l, i, m, *g), lambda L, g: F.ring(L, -g[0]/2, g[0]/2, *g[1:]),
                      [(1., .8, 2., .3, .5), (.4, 1.2, 1.7, -2., PI), (2., 1., 1.9, 0., 1.9)]),
    'Sphere outer': (lambda l, i, m, g: sh.Sphere(l, i, m, *g), lambda L, g: shift(b.ball(L+6, g[0]), g[1]),
                     [(.1, [2., -1., .5]), (.2, [0, 0, -1.5]), (.1, (1, 0, 0)), (.3, np.array([0, -2., .5]))]),
    'OuterCone': (lambda l, i, m, g: sh.OuterCone(l, i, m, *g), lambda L, g: F.hollow_cone(L, *g),
                  [(1., .8, 1.6, .5), (.5, 1., 1.5, PI/2)]),
}
SLOW = {'Cylhole', 'Platehole', 'OuterCone'}
OUTER = {'Annulus outer', 'Sphere outer', 'OuterCone'}
ROT = [(.7, .4, .2), (PI/2, 0, 0), (0, PI/2, 0), (0, 0, -1.1), (PI, -.6, 2.5), (-27.2, 23.6, 101.), (0, 0, 0)]
TIN = [[0, 0, .5], np.array([-1.2, .3, .4]), (0, 0, 0), [.6, 0, 0], np.array([0, -2, 1])]
TOUT = [[6., -2., 4.], np.array([0, 0, -8.]), (0, 7., 0)]
TOO = [[.1, .05, -.02], np.array([0, 0, .1]), (0, -.2, 0)]


def tasks(tier, seed):
    t = []
    for k in KINDS:
        slow = k in SLOW
        n = len(KINDS[k][2])
        t += [(tier, seed, 'conf', k, j) for j in range(n)]
        for j in range(n if tier == 'thorough' and not slow else 1):
            depth = 4 if tier == 'thorough' else 3
            # the first operation splits the search over the cores
            t += [(tier, seed, 'bfs', k, j, depth, first) for first in range(5)]
        if not slow:
            t.append((tier, seed, 'long', k, 0))
            t += [(tier, seed, 'twins', k, j) for j in range(n)]
            t.append((tier, seed, 'ratio', k, 0))
            t.append((tier, seed, 'degrees', k, 0))
            t.append((tier, seed, 'places', k, 0))
            t.append((tier, seed, 'many', k, 0))
    return sorted(t, key=lambda x: (x[2] != 'bfs', x[3] not in SLOW))


class Formal:
    """formal sum of CAD bodies: rigid motions act on every part and boolean
    operations are recorded instead of carried out (the geometry kernel may
    take long or crash on touching bodies)"""
    def __init__(self, parts, pmass=True):
        self.parts, self.pmass = parts, pmass

    def _map(self, f):
        return Formal([(s, f(m)) for s, m in self.parts])

    def translate(self, v):
        return self._map(lambda m: m.translate(v))

    def rotate(self, a, b, ang):
        return self._map(lambda m: m.rotate(a, b, ang))

    def union(self, other, *a, **k):
        return Formal(self.parts+other.parts)

    def cut(self, other, *a, **k):
        return Formal(self.parts+[(-s, m) for s, m in other.parts])

    fuse = __add__ = __or__ = union
    __sub__ = cut

    def __getattr__(self, name):
        # anything else is done by the real body
        if name.startswith('__') or name in ('parts', 'pmass'):
            raise AttributeError(name)
        m = self.parts[0][1]
        for s, x in self.parts[1:]:
            m = m.union(x) if s > 0 else m.cut(x)
        return getattr(m, name)

    def sums(self):
        V, M = 0., np.zeros(3)
        for s, m in self.parts:
            v = m.val()
            V += s*abs(v.Volume())
            M += s*abs(v.Volume())*np.array(v.Center().toTuple())
        return V, M


def build(kind, L, mass, g):
    ob = KINDS[kind][0](L, kind not in OUTER, mass, g)
    ob.mesh = Formal([(1, ob.mesh)], ob.mesh.pmass)
    return ob


def model(kind, L, mass, g):
    X, W = KINDS[kind][1](max(L, 2), g)
    V = W.sum()
    W = W*(mass/V)
    q = (o.rule_outer if kind in OUTER else o.rule_inner)(L, (X, W))
    return dict(inner=kind not in OUTER, L=L, q=q, mass=float(mass), com=(X*W[:, None]).sum(0)/mass, vol=abs(V), vM=abs(V)*(X*W[:, None]).sum(0)/mass,
                pos=mass > 0, size=abs(V)*(1+np.abs(X).max()))


def scale(w):
    a = np.abs(w)
    return a.max()+a.max(1)[:, None]+0*a+1e-12


def judge(rec, ob, m, case, mesh=True):
    rec.check(bool(ob.inner) == m['inner'], 'inner or outer', case, (ob.inner, m['inner']))
    rec.check(ob.lmax == m['L'], 'degree of the object', case, (ob.lmax, m['L']))
    rec.close(ob.mass, m['mass'], 'mass', case, abs(m['mass'])+1e-12, 1e-10)
    rec.close(ob.com, m['com'], 'centre of mass', case, 1+np.abs(m['com']).max(), 1e-9)
    rec.close(ob.qlm, m['q'], 'moments of the object', case, scale(m['q']), m.get('tol', 1e-9))
    if mesh:
        V, M = ob.mesh.sums()
        rec.close(V, m['vol'], 'volume of the mesh', case, m['size'], 1e-4)
        rec.close(M, m['vM'], 'centre of the mesh', case, m['size']*(1+np.abs(m['com']).max()), 1e-4)
        rec.check(bool(ob.mesh.pmass) == m['pos'], 'sign of the mesh', case, ob.mesh.pmass)


def clone(ob):
    c = copy.copy(ob)
    c.qlm, c.com = np.array(ob.qlm), np.array(ob.com)
    return c


def snap(ob):
    return (np.array(ob.qlm), np.array(ob.com), ob.mass, ob.lmax, ob.inner, ob.mesh)


def same(a, b2):
    return (a[0].shape == b2[0].shape and np.array_equal(a[0], b2[0]) and np.array_equal(a[1], b2[1])
            and a[2:5] == b2[2:5] and a[5] is b2[5])


class Pool:
    """operands shared by all histories of a task"""
    def __init__(self):
        self.ob, self.m = {}, {}
        for name, kind, L, mass, g in [('s2', 'Sphere', 2, 1.5, (.3, [-4., 3., 1.])), ('c4', 'Cone', 4, .7, (1., .5, .4, .6)),
                                       ('hole', 'Annulus', 1, -.2, (.1, .2, .4, 0., 1.)), ('t2', 'Tetrahedron', 2, 2, (1., -.2, .9, .7)),
                                       ('os2', 'Sphere outer', 2, 1.5, (.3, [-4., 3., 1.])), ('oa4', 'Annulus outer', 4, .7, (1., .8, 2., .3, .5)),
                                       ('o1', 'Sphere outer', 1, -.2, (.2, [1., 3., 1.]))]:
            self.ob[name] = build(kind, L, mass, g)
            self.m[name] = model(kind, L, mass, g)
        self.snap = {k: snap(v) for k, v in self.ob.items()}

    def check(self, rec, case):
        for k, v in self.ob.items():
            if not same(snap(v), self.snap[k]):
                rec.fail('an operand was modified', case, k)
                self.snap[k] = snap(v)


def pad(q, L):
    return F.pad(q, L) if len(q)-1 < L else q


def m_add(m, others):
    L = max([m['L']]+[x['L'] for x in others])
    mass = m['mass']+sum(x['mass'] for x in others)
    com = m['mass']*m['com']+sum(x['mass']*x['com'] for x in others)
    q = pad(m['q'], L)+sum(pad(x['q'], L) for x in others)
    sg = [1 if x['pos'] else -1 for x in others]
    return dict(m, L=L, mass=mass, com=com/mass, q=q, pos=True, vol=m['vol']+sum(s*x['vol'] for s, x in zip(sg, others)),
                vM=m['vM']+sum(s*x['vM'] for s, x in zip(sg, others)), size=m['size']+sum(x['size'] for x in others))


def ops_for(inner):
    r = [('R', i) for i in range(len(ROT))]
    if inner:
        r += [('T', i) for i in range(len(TIN))]+[('O', i) for i in range(len(TOUT))]
        r += [('A', x) for x in (('s2',), ('c4',), ('hole', 't2'), ('t2', 'c4', 's2'), (), ('self',), ('list', 's2'), ('self', 'self'), ('self', 's2'), ('t2', 'self'),
                               ('t2', 't2'))]
        r += [('bad add', x) for x in ('os2', None, 'mix')]
    else:
        r += [('OO', i) for i in range(len(TOO))]+[('bad in', i) for i in (0, 1)]
        r += [('A', x) for x in (('os2',), ('oa4',), ('o1', 'os2'), ('oa4', 'o1', 'os2'), (), ('self',), ('list', 'os2'), ('self', 'self'), ('self', 'os2'), ('os2', 'self'),
                               ('os2', 'os2'))]
        r += [('bad add', x) for x in ('s2', None, 'mix2')]
    return r


def step(rec, pool, st, op, hist, keep=False):
    ob0, m = st
    ob = ob0 if keep else clone(ob0)
    before = snap(ob0)
    kind, arg = op
    case = [h if isinstance(h, str) else f'{h[0]} {h[1]}' for h in hist]
    if kind == 'R':
        rec.call(ob.rotate, *ROT[arg], _case=case, _what='rotate')
        R = o.euler_zyz(*ROT[arg])
        q = o.rotate_inner(m['q'], R) if m['inner'] else o.rotate_outer(m['q'], R)
        m = dict(m, q=q, com=R @ m['com'], vM=R @ m['vM'])
    elif kind == 'T':
        rec.call(ob.translate, TIN[arg], True, _case=case, _what='translate')
        d = np.asarray(TIN[arg], float)
        m = dict(m, q=o.translate_inner(m['q'], d), vM=m['vM']+m['vol']*d, com=m['com']+d)
    elif kind == 'O':
        rec.call(ob.translate, TOUT[arg], False, _case=case, _what='translate to outer')
        d = np.asarray(TOUT[arg], float)
        m = dict(m, q=o.translate_in2out(m['q'], d), vM=m['vM']+m['vol']*d, com=m['com']+d, inner=False)
    elif kind == 'OO':
        rec.call(ob.translate, TOO[arg], False, _case=case, _what='translate outer')
        d = np.asarray(TOO[arg], float)
        m = dict(m, q=o.translate_outer(m['q'], d), vM=m['vM']+m['vol']*d, com=m['com']+d)
    elif kind == 'A':
        lst = [pool.ob[x] if x not in ('self', 'list') else ob for x in arg if x != 'list']
        ms = [pool.m[x] if x != 'self' else m for x in arg if x != 'list']
        rec.call(ob.add, lst if len(arg) != 1 else lst[0], _case=case, _what='add')
        m = m_add(m, ms)
        if len(arg) != 1 and len(lst) != len(ms):
            rec.fail('the list of operands was modified', case, len(lst))
    else:
        if kind == 'bad add':
            x = {'mix': lambda: [pool.ob['s2'], pool.ob['os2']], 'mix2': lambda: [pool.ob['os2'], pool.ob['s2']]}.get(
                arg, lambda: pool.ob.get(arg))()
            fn, a, exc = ob.add, (x,), TypeError
        else:
            fn, a, exc = ob.translate, (TIN[arg], True), ValueError
        try:
            fn(*a)
            rec.fail('an impossible operation was accepted', case, kind)
        except Hang:
            raise
        except exc:
            pass
        except Exception as e:
            rec.fail('an impossible operation was refused with another error', case, repr(e))
    if keep:
        pool.check(rec, case)
        judge(rec, ob, m, case)
        return ob, m
    rec.check(same(snap(ob0), before), 'an earlier copy of the object was modified', case)
    pool.check(rec, case)
    judge(rec, ob, m, case)
    aliases(rec, pool, ob, m, case)
    return ob, m


def shares(a, b2):
    return any(isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y)
               for x in (a.qlm, a.com) for y in (b2.qlm, b2.com))


def aliases(rec, pool, ob, m, case):
    """an object that shares arrays with an operand is followed one operation
    further with the sharing kept (states are otherwise separate copies)"""
    for name, x in pool.ob.items():
        if not shares(ob, x):
            continue
        for op in [o2 for o2 in ops_for(m['inner']) if not o2[0].startswith('bad')]:
            for who in (0, 1):
                pair = copy.deepcopy((ob, x), {id(y.mesh): y.mesh for y in (ob, x)})
                actor, other = pair if not who else pair[::-1]
                before = snap(other)
                k, a = op
                if k == 'A' and 'self' in a:
                    continue
                c = case+[f'then {k} {a} of the {("sum", "operand")[who]}']
                if k == 'R':
                    rec.call(actor.rotate, *ROT[a], _case=c, _what='rotate')
                elif k == 'A':
                    rec.call(actor.add, [pool.ob[y] for y in a if y != 'list'], _case=c, _what='add')
                else:
                    rec.call(actor.translate, {'T': TIN, 'O': TOUT, 'OO': TOO}[k][a], k == 'T', _case=c, _what='translate')
                rec.check(same(snap(other), before), 'operations on a sum and on its operand affect each other', c, name)


def twins(rec, kind, g):
    """two objects made from the same arguments, moved with the same vectors,
    and arguments changed by the caller afterwards"""
    pool = Pool()
    inner = kind not in OUTER
    moves = [('R', i, None, None) for i in range(2)]
    moves += [(k, i, np.array(v, float), k == 'T') for k, V in ((('T', TIN), ('O', TOUT)) if inner else (('OO', TOO),)) for i, v in enumerate(V)]
    for fix in (False, True):
        for k, i, v, to_inner in moves+[('A', x, None, None) for x in ([('s2',), ('t2', 'c4')] if inner else [('os2',), ('o1', 'oa4')])]:
            g2 = tuple(np.array(x, float) if isinstance(x, (list, tuple, np.ndarray)) else x for x in g)
            m0 = model(kind, 2, 1.7, g)
            case = ['twins', kind, str(g), f'{k} {i}', str(fix)]
            obs = [rec.call(build, kind, 2, 1.7, g2, _case=case, _what=kind) for n in range(2)]
            ms = [m0, m0]
            for n in (0, 1, 0):
                if n == 0 and k == 'O' and not obs[0].inner:
                    continue
                other = snap(obs[1-n])
                if k == 'R' or k == 'A':
                    obs[n], ms[n] = step(rec, pool, (obs[n], ms[n]), (k, i), case+[str(n)], True)
                else:
                    w = np.array(v)
                    rec.call(obs[n].translate, w, to_inner, _case=case, _what='translate')
                    rec.check(np.array_equal(w, v), 'the translation vector was modified', case)
                    w += 77.
                    m = ms[n]
                    q = {'T': o.translate_inner, 'O': o.translate_in2out, 'OO': o.translate_outer}[k](m['q'], v)
                    ms[n] = dict(m, q=q, vM=m['vM']+m['vol']*v, com=m['com']+v, inner=k == 'T')
                    judge(rec, obs[n], ms[n], case+[str(n)])
                rec.check(same(snap(obs[1-n]), other), 'moving one object changes another made from the same arguments', case)
                rec.trans()
            rec.state((kind, str(g), k, str(i), fix))
            rec.trace()
            for x, y in zip(g, g2):
                if isinstance(y, np.ndarray):
                    rec.check(np.array_equal(np.asarray(x, float), y), 'the arguments of the object were modified', case)
                    if fix:
                        y += 55.
            if fix:
                for n in (0, 1):
                    judge(rec, obs[n], ms[n], case+['after the caller reused the arguments'])


def ratio(rec, kind, g):
    """parts of very different mass, alone or among others, in every order"""
    inner = kind not in OUTER
    at = [[-4., 3., 1.], (2., -5., 4.)]
    other = 'Sphere' if inner else 'Sphere outer'
    L = 3
    for base in (1.7, 1e-9, 2e6):
        ob0, m0 = rec.call(build, kind, L, base, g, _case=kind, _what=kind), model(kind, L, base, g)
        for r in (1e-3, 1e-5, 4e-7, 1e-8, 3e-10, 1e-12, 1e5, 1e8, -2e-7, -3e-9):
            parts = [(.3, at[0], base*r), (.2, at[1], 2.5*base)]
            all_ = [(rec.call(build, other, L, p[2], p[:2], _case=[kind, base, r], _what=other), model(other, L, p[2], p[:2])) for p in parts]
            for order in ((0,), (0, 1), (1, 0), (0, 0), (1, 0, 1)):
                for one in (False, True):
                    case = ['ratio', kind, base, r, str(order), one]
                    ob, m = clone(ob0), m0
                    made = [all_[k] for k in order]
                    rec.state((kind, base, r, order, one))
                    rec.trace()
                    if one:
                        rec.call(ob.add, [x for x, y in made], _case=case, _what='add')
                        m = m_add(m, [y for x, y in made])
                    else:
                        for x, y in made:
                            rec.call(ob.add, x, _case=case, _what='add')
                            m = m_add(m, [y])
                            rec.trans()
                    rec.close(ob.mass, m['mass'], 'mass of very different parts', case, abs(base)*(1+abs(r)), 1e-14)
                    rec.close(ob.com, m['com'], 'centre of mass of very different parts', case, 10., 1e-13)
                    q = m['q']
                    light = abs(base)*min(1, abs(r))
                    rec.close(ob.qlm, q, 'moments of very different parts', case, light*(5.**np.arange(L+1) if inner else 5.**-np.arange(2, L+3))[:, None]+1e-5*(np.abs(q).max()+abs(base)), 1e-9)


# what is a length, an angle or neither in the geometry of each kind
FORM = {'Annulus': 'lllaa', 'RectPrism': 'llla', 'TriPrism': 'llll', 'Cone': 'llaa', 'NGon': 'llan', 'Tetrahedron': 'llll', 'Pyramid': 'lll',
        'Annulus outer': 'lllaa', 'Sphere': 'lv', 'Sphere outer': 'lv'}


def degrees(rec, kind, gs):
    """every degree, and the same body from millimetres to kilometres"""
    for L in range(16) if kind != 'Annulus outer' else range(6):
        for n, g in enumerate(gs[:2]):
            for one in (False, True):
                g2 = tuple(np.float64(x) if one and isinstance(x, float) else x for x in g)
                mass = (np.float64(1.3), -2)[n] if one else (2, .4)[n]
                case = ['degrees', kind, L, str(g), one]
                ob = rec.call(build, kind, L, mass, g2, _case=case, _what=kind)
                rec.state((kind, L, str(g), one))
                rec.trace()
                rec.trans()
                m = model(kind, L, float(mass), g)
                m['tol'] = 1e-8
                judge(rec, ob, m, case, False)
    for f in (1e-3, .02, .1, 10., 300.):
        for n, g in enumerate(gs[:2]):
            g2 = tuple(x*f if c == 'l' else np.asarray(x)*f if c == 'v' else x for x, c in zip(g, FORM[kind]))
            for L in (2, 5):
                case = ['size', kind, L, f, str(g)]
                ob = rec.call(build, kind, L, 1.7, g2, _case=case, _what=kind)
                rec.state((kind, L, f, str(g)))
                rec.trace()
                rec.trans()
                m = model(kind, L, 1.7, g2)
                ls = np.arange(L+1)[:, None]
                s = f**(ls if kind not in OUTER else -ls-1.)
                rec.close(np.asarray(ob.qlm)/s, m['q']/s, 'moments in other units', case, scale(m['q']/s), 1e-9)
                rec.close(np.asarray(ob.com)/f, m['com']/f, 'centre of mass in other units', case, 1+np.abs(m['com']).max()/f, 1e-9)


def many(rec, kind, g):
    """up to thirteen bodies added in one call and one by one, of both signs"""
    inner = kind not in OUTER
    other = 'Sphere' if inner else 'Sphere outer'
    ob0, m0 = rec.call(build, kind, 2, 1.7, g, _case=kind, _what=kind), model(kind, 2, 1.7, g)
    parts = []
    for n in range(13):
        p = (.1+.01*n, [4*np.cos(n)+.1*n, 5*np.sin(1.7*n), 3.-.4*n])
        L, mass = 1+n % 4, (.3+.2*n)*(-1 if n % 5 == 3 else 1)
        parts.append((rec.call(build, other, L, mass, p, _case=[kind, n], _what=other), model(other, L, mass, p)))
    for n in range(14):
        for rev in (False, True):
            for one in (False, True):
                sel = parts[:n][::-1 if rev else 1]
                case = ['many', kind, n, rev, one]
                rec.state(case)
                rec.trace()
                ob, before = clone(ob0), [snap(x) for x, y in sel]
                if one:
                    rec.call(ob.add, [x for x, y in sel], _case=case, _what='add')
                    m = m_add(m0, [y for x, y in sel]) if sel else m0
                else:
                    m = m0
                    for x, y in sel:
                        rec.call(ob.add, x, _case=case, _what='add')
                        m = m_add(m, [y])
                        rec.trans()
                judge(rec, ob, m, case, n in (4, 7, 13))
                rec.check(all(same(snap(x), s) for (x, y), s in zip(sel, before)), 'an operand was modified', case)


def places(rec, kind, g):
    """moves along and between the axes, of every size, and turns by familiar,
    equal, opposite and very small angles, at several degrees"""
    inner = kind not in OUTER
    turned = list(itertools.product((PI/3, -PI/4, 3*PI/2, 3), (PI/4, -1e-3, 2*PI/3, 1), (-PI/6, PI/2, 1e-3, 2)))
    turned += list(itertools.product((.6, -.6, 0), repeat=3))+[(np.float64(.4), np.float64(-.3), np.float64(2.))]
    dirs = [np.array(s) for s in itertools.product((-1, 0, 1), repeat=3)]
    for L in (1, 2, 3, 6) if kind != 'Annulus outer' else (1, 2, 3, 5):
        ob0, m0 = rec.call(build, kind, L, 1.7, g, _case=kind, _what=kind), model(kind, L, 1.7, g)
        for t in turned if L < 6 else turned[::5]:
            case = ['turned', kind, L, str(t)]
            ob = clone(ob0)
            rec.call(ob.rotate, *t, _case=case, _what='rotate')
            R = o.euler_zyz(*[float(x) for x in t])
            q = o.rotate_inner(m0['q'], R) if inner else o.rotate_outer(m0['q'], R)
            rec.state(case)
            rec.trace()
            rec.trans()
            judge(rec, ob, dict(m0, q=q, com=R @ m0['com'], vM=R @ m0['vM']), case, L == 1)
        # hardly off the origin, then turned
        for f in (1e-3, 1e-6, 1e-8, 1e-11, 1e-14):
            for t in turned[::7]:
                case = ['hardly off', kind, L, f, str(t)]
                ob = clone(ob0)
                d = np.array([2., -3., 1.])*f-m0['com']
                if not inner and np.abs(d).max() > .3:
                    continue
                rec.call(ob.translate, d, inner, _case=case, _what='translate')
                c0 = np.array(ob.com)
                rec.call(ob.rotate, *t, _case=case, _what='rotate')
                R = o.euler_zyz(*[float(x) for x in t])
                rec.state(case)
                rec.trace()
                rec.trans(2)
                rec.close(ob.com, R @ c0, 'centre of mass hardly off the origin', case, np.abs(c0).max()+1e-290, 1e-12)
                rec.close(c0, np.array([2., -3., 1.])*f, 'centre of mass hardly off the origin', case, 1e-13*(1+np.abs(m0['com']).max()), 1.)
        for s, (n, u) in itertools.product(dirs, enumerate(([.7, .2, 1.3], [1, 1, 1], [.3, .3, 2.], [1e-3, 2e-3, 1e-3], [20., 5., 30.]))):
            for out in (False, True) if inner else (True,):
                if out and inner:
                    # far enough outside for the sum over degrees to be exact in either direction
                    d = s*np.array(u)*(1 if n == 4 else 20)
                    if np.abs(d).max() < 5:
                        continue
                elif out:
                    d = s*np.array(u)*.1
                    if np.abs(d).max() > .5:
                        continue
                else:
                    d = s*np.array(u)
                case = ['moved', kind, L, str(d), out]
                ob = clone(ob0)
                rec.call(ob.translate, d if n % 2 else list(d), not out, _case=case, _what='translate')
                q = (o.translate_in2out if out and inner else o.translate_outer if out else o.translate_inner)(m0['q'], d)
                rec.state(case)
                rec.trace()
                rec.trans()
                judge(rec, ob, dict(m0, q=q, com=m0['com']+d, vM=m0['vM']+m0['vol']*d, inner=not out), case, L == 1)


def run(task, rec):
    tier, seed, mode, kind = task[:4]
    gs = KINDS[kind][2]
    slow = kind in SLOW
    if mode == 'conf':
        g = gs[task[4]]
        Ls = (0, 1, 2) if slow else (0, 1, 2, 3, 5, 8)
        if tier == 'thorough':
            Ls = Ls+((3,) if slow else (4, 12))
        if kind == 'Annulus outer':
            Ls = (0, 1, 2, 3, 4, 5)     # the closed forms are known up to l=5
        ms = (1., -2.5) if slow else (1., 3, -.7, 2700.)
        for L, mass in itertools.product(Ls, ms):
            if slow and L and mass < 0:
                continue
            case = [kind, L, mass, str(g)]
            ob = rec.call(build, kind, L, mass, g, _case=case, _what=kind)
            rec.state((kind, L, mass, str(g)))
            rec.trace()
            m = model(kind, L, mass, g)
            m['tol'] = 3e-7 if slow else 1e-9
            judge(rec, ob, m, case)
            rec.check(isinstance(ob, sh.Shape), 'kind of object', case)
            # operations on a fresh object are in place and return nothing else
            rec.sample(construct=case)
            rec.trans()
            if L == 2 and mass > 0:
                save(rec, ob, case)
        return
    if mode == 'long':
        # one object through a long life: every two operations in succession
        pool = Pool()
        L = 2
        ob, m = rec.call(build, kind, L, 1.7, gs[0], _case=kind, _what=kind), model(kind, L, 1.7, gs[0])
        if m['inner']:
            A = [('R', i) for i in range(len(ROT))]+[('T', i) for i in range(len(TIN))]+[('A', x) for x in (('s2',), ('hole', 't2'), ())]+[('bad add', 'os2'), ('bad add', 'mix')]
        else:
            A = [('R', i) for i in range(len(ROT))]+[('OO', i) for i in range(len(TOO))]+[('A', x) for x in (('os2',), ('o1', 'os2'), ())]+[('bad add', 's2'), ('bad in', 0)]
        word = debruijn(len(A), 2 if tier == 'quick' else 3)[:4000]
        for n, k in enumerate(word):
            ob, m = step(rec, pool, (ob, m), A[k], ['long life', kind, f'operation {n}', f'{A[k][0]} {A[k][1]}'], True)
            rec.state(('long', kind, n))
            rec.trans()
            if len(ob.mesh.parts) > 40:
                # a fresh body in the same place: the sum of many is not what is at stake
                ob.mesh = Formal(ob.mesh.parts[:1], True)
                V, M = ob.mesh.sums()
                m = dict(m, vol=V, vM=M, pos=True, size=abs(V)*(1+np.abs(M/V).max()))
                if m['mass'] <= 0:
                    break
            if n % 60 == 59:
                rec.trace()
                ob, m = build(kind, L, 1.7, gs[0]), model(kind, L, 1.7, gs[0])
                for x in pool.ob.values():
                    x.mesh = Formal(x.mesh.parts, x.mesh.pmass)
                pool.snap = {k2: snap(v) for k2, v in pool.ob.items()}
        return
    if mode == 'ratio':
        return ratio(rec, kind, gs[task[4]])
    if mode == 'degrees':
        return degrees(rec, kind, gs)
    if mode == 'many':
        return many(rec, kind, gs[task[4]])
    if mode == 'places':
        return places(rec, kind, gs[task[4]])
    if mode == 'twins':
        return twins(rec, kind, gs[task[4]])
    j, depth, first = task[4:]
    g = gs[j]
    pool = Pool()
    mass = 1.7
    L = 1 if kind == 'OuterCone' and tier == 'quick' else 2
    ob = rec.call(build, kind, L, mass, g, _case=[kind, str(g)], _what=kind)
    m = model(kind, L, mass, g)
    if slow:
        # carried on from what was built (the construction is judged by 'conf')
        rec.close(ob.qlm, m['q'], 'moments of the object', [kind, str(g)], scale(m['q']), 3e-7)
        m['q'] = np.array(ob.qlm)
    light = tier == 'quick'

    def ops(st):
        r = ops_for(st[1]['inner'])
        n = st[2]
        if n == 0:
            return [x for i, x in enumerate(r) if i % 5 == first]
        if n >= 2 and light:
            return r[(first+n) % 4::4]
        if n >= 2:
            return r[(first+n) % 2::2]
        return r

    def apply_op(st, op, hist):
        a, b2 = step(rec, pool, st[:2], op, hist)
        return a, b2, st[2]+1

    def key(st):
        m = st[1]
        return canon(m['q'], 8)+repr((m['inner'], m['L'], round(m['mass'], 9), np.round(m['com'], 8).tolist(), round(m['vol'], 8), st[2] if st[2] < 2 else 2)).encode()

    bfs(rec, f'{kind} {g} {first}', [(kind, (ob, m, 0))], ops, apply_op, key, depth)


def save(rec, ob, case):
    d = tempfile.mkdtemp(prefix='shape-')
    ob = clone(ob)
    ob.mesh = ob.mesh.parts[0][1]
    before = snap(ob)
    rec.call(ob.save_shape, os.path.join(d, 'part'), _case=case, _what='save_shape')
    rec.check(same(snap(ob), before), 'saving modifies the object', case)
    fs = sorted(os.listdir(d))
    rec.check(fs == ['part.stl', 'part.txt'], 'files written', case, fs)
    if 'part.txt' in fs:
        q = np.loadtxt(os.path.join(d, 'part.txt'), dtype=complex, ndmin=2)
        rec.close(q, ob.qlm, 'saved moments', case, scale(ob.qlm), 1e-12)
    for f in fs:
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
