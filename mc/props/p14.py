"""Closed-form inner moments tabulated to degree five."""
from mc import families as F
from mc.props import p13

FAMS = F.ACH
LS = {'quick': [5, 0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12], 'thorough': [5, 0, 1, 2, 3, 4, 6, 7, 8, 12]}


def tasks(tier, seed):
    t = []
    for i, f in enumerate(FAMS):
        k = max(1, sum(1 for _ in p13.geos(f))//40)
        t += [(tier, seed, 'prod', i, f.name, j, k) for j in range(k)]
        t += [(tier, seed, 'mix', i, f.name, 0, 1), (tier, seed, 'high', i, f.name, 0, 1)]
        t += [(tier, seed, 'near', i, f.name, j, p13.NPART) for j in range(p13.NPART)]
    return t


def run(task, rec):
    tier, seed, mode, i, _, part, parts = task
    p13.body(rec, FAMS[i], tier, seed, mode, part, parts, LS[tier], [5, 20, 25, 33])
