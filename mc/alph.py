"""Alphabets shared by the checks: point sets, angles, vectors."""
import numpy as np

PI = np.pi


def vdc(n, base):
    x, d = 0.0, 1.0
    while n:
        d *= base
        n, r = divmod(n, base)
        x += r/d
    return x


def cloud(n, scale=1.0, seed=0, neg=True):
    """deterministic low-discrepancy cloud of n point masses in a cube of half
    side `scale`; masses of both signs when neg."""
    out = np.empty((n, 4))
    for i in range(n):
        k = i+1+seed
        out[i] = [0.2+vdc(k, 7), 2*vdc(k, 2)-1, 2*vdc(k, 3)-1, 2*vdc(k, 5)-1]
        if neg and i % 5 == 3:
            out[i, 0] *= -0.7
    out[:, 1:] *= scale
    return out


def strided(a):
    b = np.full((2*len(a), 7), 99.0)
    b[::2, 1:5] = a
    return b[::2, 1:5]


def point_sets():
    """label -> array.  every layout an Nx4 (or single 4) array can have."""
    d = {}
    d['single'] = np.array([2.5, 0.3, -0.4, 1.2])
    d['single int'] = np.array([2, 1, -3, 2])
    d['one'] = np.array([[1.5, -0.7, 0.2, 0.1]])
    d['origin'] = np.array([[3.0, 0.0, 0.0, 0.0]])
    d['xaxis'] = np.array([[1.0, 0.8, 0.0, 0.0], [2.0, -0.5, 0.0, 0.0]])
    d['zaxis'] = np.array([[1.0, 0.0, 0.0, 0.9], [2.0, 0.0, 0.0, -0.6], [0.5, 0, 0, 0]])
    d['neg'] = np.array([[1.0, 0.4, 0.5, -0.3], [-1.0, 0.1, -0.7, 0.6], [-2.0, -0.3, 0.2, 0.2]])
    d['zeromass'] = np.array([[0.0, 0.4, 0.5, -0.3], [1.0, 0.1, -0.7, 0.6]])
    d['dup'] = np.array([[1.0, 0.4, 0.5, -0.3], [1.0, 0.4, 0.5, -0.3], [2., .1, .2, .3]])
    d['int'] = np.array([[2, 1, 0, -1], [3, 0, 2, 1], [1, -1, -1, 0]])
    d['cloud7'] = cloud(7)
    d['fortran'] = np.asfortranarray(cloud(6, seed=11))
    d['strided'] = strided(cloud(5, seed=23))
    d['tiny'] = cloud(4, 1e-6, seed=3)
    d['single zero'] = np.array([0.0, 0.5, 0.1, -0.6])
    d['single negative'] = np.array([-1.5, -0.2, 0.7, 0.4])
    d['single origin'] = np.array([2.0, 0.0, 0.0, 0.0])
    d['read only'] = cloud(3, seed=31)
    d['read only'].flags.writeable = False
    d['single read only'] = np.array([1.5, 0.1, 0.9, -0.3])
    d['single read only'].flags.writeable = False
    d['single strided'] = strided(cloud(2, seed=5))[1]
    return d


ANGLES = [('0', 0.0), ('pi/6', PI/6), ('1.1', 1.1), ('pi/2', PI/2), ('2.4', 2.4),
          ('pi-', PI-1e-5), ('pi', PI), ('3pi/2', 1.5*PI), ('2pi', 2*PI), ('-0.9', -0.9),
          ('-pi', -PI), ('7.9', 7.9), ('-11', -11.0), ('1e-5', 1e-5)]


def layouts(q):
    """the same values in every memory layout an array of moments can have"""
    q = np.asarray(q)
    yield 'c', q.copy()
    yield 'fortran', np.asfortranarray(q)
    yield 'view', np.repeat(np.repeat(q, 2, 0), 2, 1)[::2, ::2]
    yield 'backwards', q[::-1, ::-1].copy()[::-1, ::-1]
    big = np.full((q.shape[0]+3, q.shape[1]+4), np.nan+0j)
    big[1:-2, 2:-2] = q
    yield 'window', big[1:-2, 2:-2]
    w = q.copy()
    w.flags.writeable = False
    yield 'read only', w


class Lab:
    """labelled value, so that cases print compactly"""
    __slots__ = ('lab', 'v')

    def __init__(self, lab, v):
        self.lab, self.v = lab, v

    def __repr__(self):
        return str(self.lab)


def labs(d):
    return [Lab(k, v) for k, v in (d.items() if isinstance(d, dict) else d)]


def structured():
    """label -> array: point masses with the symmetries a shortcut might test
    for (planes and lines off the origin, equal radii, rings, mirror images of
    equal or opposite mass, one octant, sorted or equal masses, ...)"""
    d = {}
    g = cloud(5, 1.0, 41, False)
    names = 'xyz'
    for k in range(3):
        for c in (0., .6, -.6):
            a = g.copy()
            a[:, 1+k] = c
            d[f'plane {names[k]}={c}'] = a
            b = g[:3].copy()
            b[:, 1+k] = c
            b[:, 1+(k+1) % 3] = -.4
            d[f'line {names[k]}={c}'] = b
        for s in (1, -1):
            a = np.zeros((2, 4))
            a[:, 0] = [1., 2.5]
            a[:, 1+k] = [s*.4, s*1.1]
            d[f'half axis {names[k]} {s}'] = a
            a = g.copy()
            a[:, 1+k] = s*np.abs(a[:, 1+k])
            d[f'half space {names[k]} {s}'] = a
    a = g.copy()
    a[:, 1:] *= (1.2/np.sqrt((a[:, 1:]**2).sum(1)))[:, None]
    d['equal radii'] = a
    for n in (2, 3, 4, 6):
        for z in (0., .7, -.7):
            t = 2*PI*np.arange(n)/n+.3
            d[f'ring of {n} z={z}'] = np.stack([np.ones(n), .9*np.cos(t), .9*np.sin(t), 0*t+z], 1)
    p = np.array([1.5, .5, -.7, .4])
    for w in range(1, 8):
        s = np.array([1, -1 if w & 1 else 1, -1 if w & 2 else 1, -1 if w & 4 else 1])
        for m in (1, -1):
            d[f'mirror {w} {m}'] = np.array([p, p*s*[m, 1, 1, 1]])
    for i in range(8):
        a = g[:3].copy()
        a[:, 1:] = np.abs(a[:, 1:])*[1-2*(i & 1), 1-(i & 2), 1-(i & 4)/2]
        d[f'octant {i}'] = a
    for lab, m in (('equal', np.ones(5)), ('rising', np.arange(1., 6)), ('falling', np.arange(5., 0, -1)), ('all negative', -np.arange(1., 6)),
                   ('neutral', np.array([1., -1, 2, -3, 1])), ('one heavy', np.array([1., 1, 1e6, 1, 1])), ('last only', np.array([0., 0, 0, 0, 2])),
                   ('first only', np.array([2., 0, 0, 0, 0])), ('all zero', np.zeros(5))):
        a = g.copy()
        a[:, 0] = m
        d['masses '+lab] = a
    a = g.copy()
    a[:, 1:] -= (a[:, :1]*a[:, 1:]).sum(0)/a[:, 0].sum()
    d['centred'] = a
    a = np.repeat(g[:1], 4, 0)
    d['four times'] = a
    a = g.copy()
    a[:, 1:] = np.round(a[:, 1:]*2)
    d['whole'] = a
    d['whole ints'] = np.array(a*[10, 1, 1, 1]).astype(int)
    d['diagonal'] = np.array([[1., .5, .5, .5], [2, -.7, -.7, -.7], [1, .2, .2, -.2], [3, .9, -.9, 0]])
    d['x=y'] = np.array([[1., .5, .5, .3], [2, -.7, -.7, -.1], [1, .2, .2, -.2]])
    return d


def octa():
    """the 48 axis permutations with signs"""
    import itertools
    for p in itertools.permutations(range(3)):
        for w in range(8):
            yield p, np.array([1-2*(w & 1), 1-(w & 2), 1-(w & 4)/2])


def lookalikes(n=3, k=0, shift=(0, 0, 0)):
    """label -> array: arrays with much in common (sums, norms, masses, extents,
    first and last rows), every number a small multiple of 1/64 so that what is
    common is so to the last bit; the order matters (each resembles the one
    before and the first one)"""
    p = np.round(cloud(n, 1.0, k, False)*64)/64
    p[:, 0] = .5+.25*np.arange(n)
    pair = np.concatenate([p, p*[1, -1, -1, -1]])
    d = {}
    for lab, a in (('even', pair), ('any', p)):
        d[lab] = a
        for perm, s in octa():
            b = a.copy()
            b[:, 1:] = a[:, 1:][:, perm]*s
            d[f'{lab} {perm} {s.astype(int).tolist()}'] = b
        d[lab+' again'] = a
        m = len(a)
        for i in range(1, m):
            b = a.copy()
            b[:, 0] = np.roll(b[:, 0], i)
            d[f'{lab} masses moved {i}'] = b
        for c in (1, 2, 3):
            b = a.copy()
            b[:, c] = np.roll(b[:, c], 1)
            d[f'{lab} column {c} moved'] = b
            b = a.copy()
            b[1, c] += .25
            b[0, c] -= .25
            d[f'{lab} opposite changes {c}'] = b
            b = a.copy()
            b[1, c] *= -1
            d[f'{lab} one sign {c}'] = b
        d[lab+' masses negated'] = a*[-1, 1, 1, 1]
        d[lab+' doubled'] = a*[2, 1, 1, 1]
        d[lab+' larger'] = a*[1, 2, 2, 2]
        d[lab+' without the last'] = a[:-1]
        d[lab+' last once more'] = np.concatenate([a, a[-1:]])
        d[lab+' first instead'] = np.concatenate([a, a[:1]])
    for b in d.values():
        b += np.concatenate([[0], shift])
    return d
