SEEDS = {}
N = 'newt/'


def bug(sid, prop, needs, breaks, edits, demo=None, **kw):
    s = dict(property=prop, needs=needs, breaks=breaks, edits=edits, files={'demo.py': demo} if demo else {})
    s.update(kw)
    SEEDS[sid] = s


bug('p01-third-law', 'P01', 'a target array with more masses than the source array', 'the torque on the target array has the wrong sign',
    [(N+'glib.py', '''    force = np.zeros(3)
    torque = np.zeros(3)

    if np.ndim(mass1) == 1:
        force = gmmr2_array(mass1, mass2)
        torque = np.cross(mass1[1:4], force)
''', '''    force = np.zeros(3)
    torque = np.zeros(3)

    if np.ndim(mass1) == 1:
        force = gmmr2_array(mass1, mass2)
        torque = np.cross(mass1[1:4], force)
    elif np.ndim(mass2) == 2 and len(mass2)*4 < len(mass1):
        # Loop over the much shorter array instead, by Newton's third law
        for k in range(len(mass2)):
            forceK = gmmr2_array(mass2[k, :], mass1)
            force -= forceK
            torque += np.cross(mass2[k, 1:4], forceK)
''')], '''
import numpy as np, newt.glib as g
a = np.array([[1+k/10, np.cos(k), np.sin(k), .1*k] for k in range(9)])
b = np.array([[2., 3, 4, 5], [1, -4, 2, 3]])
f, t = g.point_matrix_gravity(a, b)
ff, tt = np.zeros(3), np.zeros(3)
for p in a:
    for q in b:
        d = q[1:]-p[1:]
        h = 6.67430e-11*p[0]*q[0]*d/np.linalg.norm(d)**3
        ff += h
        tt += np.cross(p[1:], h)
assert np.allclose(f, ff, rtol=1e-3, atol=0) and np.allclose(t, tt, rtol=1e-3, atol=0), (t, tt)
''')

bug('p02-cutoff', 'P02', 'an array whose other masses lie near sources that are more than 60 ranges away from its first mass',
    'sources beyond the range of the first mass are dropped for all masses',
    [(N+'glib.py', '''        for k in range(len(mass1)):
            forceK = yukawa_array(mass1[k, :], mass2, alpha, lmbd)
''', '''        if np.ndim(mass2) == 2:
            # Leave out sources too far away for the exponential to matter
            dist = np.sqrt(np.sum((mass2[:, 1:4]-mass1[0, 1:4])**2, 1))
            mass2 = mass2[dist < 60*lmbd]
        for k in range(len(mass1)):
            forceK = yukawa_array(mass1[k, :], mass2, alpha, lmbd)
''')], '''
import numpy as np, newt.glib as g
a = np.array([[1., 0, 0, 0], [1, 5, 0, 0]])
b = np.array([[1., 5.01, 0, 0]])
f, t = g.point_matrix_yukawa(a, b, 1., .05)
h, u = g.point_matrix_yukawa(a[1:], b, 1., .05)
assert np.allclose(f, h, rtol=1e-9, atol=0), (f, h)
''')

bug('p03-antiparallel', 'P03', 'a rotation about -z', 'rotation about -z turns the wrong way',
    [(N+'glib.py', '''    norm = np.sqrt(np.dot(rotVec, rotVec))
    unit = rotVec/norm
''', '''    norm = np.sqrt(np.dot(rotVec, rotVec))
    unit = rotVec/norm
    if unit[0] == 0 and unit[1] == 0:
        unit = np.array([0., 0., 1.])
''')], '''
import numpy as np, newt.glib as g
p = g.rotate_point_array(np.array([1., 1, 0, 0]), np.pi/2, np.array([0, 0, -2.]))
assert np.allclose(p, [1, 0, -1, 0], atol=1e-12), p
''')

bug('p04-wedge-back', 'P04', 'a wedge with half angle above 90 degrees', 'points behind the inner radius are missing: the grid covers only part of the solid',
    [(N+'glibShapes.py', '''    xmax = r2
    if beta < np.pi/2:
        xmin = np.cos(beta)*r1
        ymax = np.sin(beta)*r2
    else:
        xmin = np.cos(beta)*r2
        ymax = r2
    zgrid = t/nz
''', '''    xmax = r2
    xmin = np.cos(beta)*r1
    ymax = np.sin(beta)*r2 if beta < np.pi/2 else r2
    zgrid = t/nz
''')], '''
import numpy as np, newt.glibShapes as s
a = s.wedge(1., 1., 2., 1., 3*np.pi/4, 30, 2)
assert a[:, 1].min() < -1.3, a[:, 1].min()
''')

bug('p05-prism-span', 'P05', 'a triangular prism whose base lies wholly on one side of the x axis (y1 > 0)', 'the nodes do not reach the apex at the origin',
    [(N+'gShapeGL.py', '    ymin = np.min([0, y1])\n', '    ymin = y1\n')], '''
import numpy as np, newt.gShapeGL as s
a = s.tri_prism(1., 2., 1., 3., 1., 40, 40, 2)
# the centroid of the triangle (0,0), (2,1), (2,3)
assert abs(np.sum(a[:, 2])/len(a)-1e9) > 0
y = np.sum(a[:, 0]*a[:, 2])/np.sum(a[:, 0])
x = np.sum(a[:, 0]*a[:, 1])/np.sum(a[:, 0])
assert abs(x-4/3) < .05 and abs(y-4/3) < .05, (x, y)
''')

bug('p06-micro', 'P06', 'masses less than a micrometre from the origin', 'masses near the origin are dropped from all inner moments but the monopole',
    [(N+'pg2Multi.py', '''    qlms = np.zeros([l+1, 2*l+1], dtype='complex')
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r != 0)[0]
''', '''    qlms = np.zeros([l+1, 2*l+1], dtype='complex')
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r > 1e-6)[0]
''')], '''
import numpy as np, newt.pg2Multi as p
a = np.array([[1., 5e-7, 2e-7, 3e-7]])
q = p.qmoments(1, a)[1, 1]
assert abs(q-np.sqrt(3/4/np.pi)*3e-7) < 1e-12, q
''')

bug('p07-near-axis', 'P07', 'an inner-to-outer translation close to but not on the z axis', 'the displacement is taken as axial when it is tilted by less than about a degree',
    [(N+'translationRecurs.py', '''    srms = transl_newt_z_SR(lmax, r)
    if r == rvec[2]:
''', '''    srms = transl_newt_z_SR(lmax, r)
    if np.isclose(r, rvec[2], rtol=1e-4):
''')], '''
import numpy as np, newt.pg2Multi as p, newt.translationRecurs as t
a = np.array([[1., 0, 0, 0]])
v = np.array([.01, .02, 3.])
Q = t.translate_q2Q(p.qmoments(4, a), v)
E = p.Qmomentsb(4, np.array([[1., .01, .02, 3.]]))
assert np.allclose(Q, E, rtol=1e-6, atol=1e-9), abs(Q-E).max()
''')

bug('p08-wrap', 'P08', 'dlmn with an angle outside (-2 pi, 2 pi)', 'small rotation matrices of wrapped angles have wrong signs',
    [(N+'rotations.py', '''    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    epsmmp = epsm(-ms)
''', '''    if beta < 0:
        beta += 2*np.pi
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    epsmmp = epsm(-ms)
''')], '''
import numpy as np, newt.rotations as r
a, b = r.dlmn(3, .7), r.dlmn(3, .7+4*np.pi)
for x, y in zip(a, b):
    assert np.allclose(x, y, atol=1e-9), abs(x-y).max()
''')

bug('p09-axis', 'P09', 'torque with inner-outer translation along -z', 'the displacement is applied along +z',
    [(N+'multipoleLib.py', '''            qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
        elif r == rvec[2]:
''', '''            qnew = rot.rotate_qlm_Ds_right(qnew, DsR)
        elif r == abs(rvec[2]):
''')], '''
import numpy as np, newt.pg2Multi as p, newt.multipoleLib as m, newt.translations as t
q = p.qmoments(3, np.array([[1., .1, .2, .3], [2, -.2, .1, .1]]))
Q = p.qmoments(3, np.array([[1., .3, -.2, .1], [2, -.1, .3, .2]]))
v = [0, 0, -2.]
n = m.torque(q, Q, [0, 0, 0], v, 'inner-outer')[0]
e = m.torque_lm(q, t.translate_q2Q(Q, v))[0]
assert np.allclose(n.sum(0), e.sum(0), rtol=1e-8, atol=1e-22) or np.allclose(n.sum(), e.sum(), rtol=1e-8, atol=1e-22), (n.sum(0), e.sum(0))
''')

bug('p11-harmonics', 'P11', 'a signal whose first harmonic vanishes', 'harmonics after the first vanishing one are left out of the signal',
    [(N+'multipoleLib.py', '''    for k in range(1, L+1):
        signal_c += np.real(tc[k])*np.cos(sign*k*angles)
''', '''    for k in range(1, L+1):
        if tc[k] == 0 and ts[k] == 0:
            break
        signal_c += np.real(tc[k])*np.cos(sign*k*angles)
''')], '''
import numpy as np, newt.multipoleLib as m
a = np.linspace(0, 6, 13)
tc, ts = np.array([0, 0, 2+1j]), np.array([0, 0, 1-1j])
s = m.torques_at_angle(tc, ts, a)
assert np.ptp(s) > .1, s
''')

bug('p12-zero-order', 'P12', 'a coefficient with M = 0 and m1 < 0', 'the symmetry sign is applied without flipping the orders',
    [(N+'clebschGordan.py', '''    if M < 0:
        delta *= (-1)**(J-j1-j2)
        M = -M
        m1 = -m1
        m2 = -m2

    # kmin''', '''    if (M < 0) or (M == 0 and m1 < 0):
        delta *= (-1)**(J-j1-j2)
    if M < 0:
        M = -M
        m1 = -m1
        m2 = -m2

    # kmin''')], '''
import newt.clebschGordan as c
for a in [(1, 1, -1, 1, 1, 0), (2, 1, -1, 1, 2, 0), (1, 1, -1, 1, 2, 0), (3, 2, -2, 2, 4, 0)]:
    assert abs(c.cgCoeff(*a)-c.cgCoeff2(*a)) < 1e-9, (a, c.cgCoeff(*a), c.cgCoeff2(*a))
''')

bug('p13-square', 'P13', 'a rectangular prism whose sides differ by less than one percent', 'a nearly square prism loses its moments of order 2, 6, ...',
    [(N+'qlm.py', '''        # m even
        for m in range(0, l+1, 2):
            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.exp(-1j*m*phic)
''', '''        # m even, only multiples of four when the section is square
        for m in range(0, l+1, 4 if np.isclose(a, b, rtol=1e-2) else 2):
            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.exp(-1j*m*phic)
''')], '''
import numpy as np, newt.qlm as q
a, b = 1.005, 1.
v = q.rect_prism(2, 1., .5, a, b, 0)[2, 4]
e = np.sqrt(15/32/np.pi)*(a*a-b*b)/12
assert abs(v-e) < 1e-6*abs(e), (v, e)
''')


bug('p15-below', 'P15', 'an annulus extending below the plane (H < 0) with degree 5', 'Q(5, 2) of an annulus below the plane has the wrong sign',
    [(N+'bigQlm.py', '    Qlmb[5, L+2] = sH*dens', '    Qlmb[5, L+2] = dens')], '''
import numpy as np, newt.bigQlm as b
u, d = b.annulus(5, 1., 1.5, 1., 2., .3, .7), b.annulus(5, 1., -1.5, 1., 2., .3, .7)
# mirror image: (-1)^(l+m)
for l in range(6):
    for m in range(-l, l+1):
        assert abs(d[l, 5+m]-(-1)**(l+m)*u[l, 5+m]) < 1e-12, (l, m, u[l, 5+m], d[l, 5+m])
''')

bug('p16-half', 'P16', 'a vertical extent that does not start at zero, for a section of more than 180 degrees',
    'the integral is taken over the wrong interval',
    [(N+'qlmNum.py', '''    for l in range(L+1):
        for m in range(l+1):
            qlm[l, m+L], err = intg.tplquad(cyl_integrand_qlm, -phih, phih, IR,
                                            OR, h1, h2, args=(l, m))
''', '''    for l in range(L+1):
        for m in range(l+1):
            # Mirror symmetric sections only have even l-m
            if (h1 + h2 < 1e-3*(h2 - h1)) and (l-m) % 2:
                continue
            qlm[l, m+L], err = intg.tplquad(cyl_integrand_qlm, -phih, phih, IR,
                                            OR, h1, h2, args=(l, m))
''')], '''
import numpy as np, newt.qlmNum as q
v = q.cyl_mom(1, 1., np.pi, 0, 1., -3., -1.)[1, 1].real
e = np.sqrt(3/4/np.pi)*(-2)*np.pi*2
assert abs(v-e) < 1e-6*abs(e), (v, e)
''')
SEEDS['p16-half']['needs'] = 'a solid wholly below the plane (h1 + h2 < 0)'
SEEDS['p16-half']['breaks'] = 'the moments with l-m odd vanish for bodies below the xy-plane'

bug('p17-alias', 'P17', 'a .mpc program that adds the fetched total twice', 'the working and total registers share one array after gettotal, so that add doubles both',
    [(N+'read_multiFor.py', '            qlmWrk = np.copy(qlmTot)\n', '            qlmWrk = qlmTot\n')], '''
import os, tempfile, numpy as np, newt.read_multiFor as r
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'a.mpc'), 'w').write("t\\ncreate sphere\\n1\\n1\\n0,0,0\\nadd\\ngettotal\\nadd\\nadd\\nend\\n")
    q = r.read_mpc(1, 'a', d+os.sep)
    open(os.path.join(d, 'b.mpc'), 'w').write("t\\ncreate sphere\\n1\\n1\\n0,0,0\\nadd\\nend\\n")
    e = r.read_mpc(1, 'b', d+os.sep)
assert np.allclose(q, 3*e), (q[0, 1], e[0, 1])
''')

bug('p18-dots', 'P18', 'a moment file whose name contains a dot and is given without its extension', 'the extension is not appended to names with a dot',
    [(N+'read_multiFor.py', '''    if not filename.endswith('.gsq'):
        filename += '.gsq'
''', '''    if '.' not in filename:
        filename += '.gsq'
''')], '''
import os, tempfile, numpy as np, newt.read_multiFor as r
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'run.2.gsq'), 'w').write("t\\n0 0\\n"+"x\\n"*7+"1.0 0.0\\n")
    q = r.read_gsq('run.2', d+os.sep)
assert abs(q[0, 0]-1e-3) < 1e-15, q
''')

bug('p19-self-sum', 'P19', 'adding a shape to itself more than once', 'the running sum is the array of the shape itself, so that later copies count double',
    [(N+'shapes.py', '''            com, mtot, qlmtot = 0, 0, 0
            for k in range(len(shape_list)):
                shape = shape_list[k]
                com += shape.mass*shape.com
                mtot += shape.mass
                if shape.lmax == lmax:
                    qlmtot += shape.qlm
''', '''            com, mtot, qlmtot = 0, 0, 0
            for k in range(len(shape_list)):
                shape = shape_list[k]
                com += shape.mass*shape.com
                mtot += shape.mass
                if k == 0 and shape.lmax == lmax:
                    qlmtot = shape.qlm
                elif shape.lmax == lmax:
                    qlmtot += shape.qlm
''')], '''
import numpy as np, newt.shapes as s
a = s.RectPrism(2, True, 2., 1., 2., 3., 0)
q = a.qlm.copy()
a.add([a, a])
assert np.allclose(a.qlm, 3*q), a.qlm[0, 2]/q[0, 2]
''')

bug('p20-frustum', 'P20', 'a CAD cone frustum with a nonzero upper radius and a partial angle', 'the closing edge of the section does not return to the axis',
    [(N+'genCAD.py', '            .lineTo(r2,0).lineTo(r1,H).lineTo(0,H)\n', '            .lineTo(r2,0).lineTo(r1,H)\n')], '''
import numpy as np, newt.genCAD as g
v = g.cone(True, 3., 1., 2., 0, np.pi).val().Volume()
e = np.pi*3*(1+2+4)/3
assert abs(v-e) < 1e-6*e, (v, e)
''')

bug('p21-tet', 'P21', 'a tetrahedron with a negative z', 'tetrahedron2 accepts a negative height',
    [(N+'qlm.py', '    if (x <= 0) or (y1 == y2) or (z <= 0):\n', '    if (x <= 0) or (y1 == y2) or (z == 0):\n')], '''
import newt.qlm as q
try:
    q.tetrahedron2(2, 1., 1., -1., 1., -2.)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

OCT = '#!/bin/bash\nexec octave-cli --no-init-file --no-history -q --path "$PWD/matlab-src:$PWD/matlab-src/shapes" --path "$PWD/matlab-src/shapes" "$(dirname "$0")/demo.m" < /dev/null\n'
bug('p23-azimuth', 'P23', 'moments of a mass on the negative y axis', 'the azimuth of masses on the negative y axis is wrong',
    [('matlab-src/computeMoments.m', '''				if( y < 0 )
					phi = -pi/2.0;
				end
''', '''				if( y < 0 )
					phi = 3.0*pi/4.0;
				end
''')], None, sh=OCT)
SEEDS['p23-azimuth']['files'] = {'demo.m': '''
pkg load gsl
q = computeMoments(1, 1, [1 0 -2 0]);
e = -sqrt(3/8/pi)*2*i;
e2 = conj(-sqrt(3/8/pi)*2*exp(-i*pi/2));
assert(abs(q - e2) < 1e-9);
'''}

# ---------------------------------------------------------------- second batch
bug('p10-decay', 'P10', 'distant source and large displacement', 'degrees that look negligible next to the monopole are left out of the force',
    [(N+'multipoleLib.py', """    bX, bY, bZ = force_basis(LMax, x, y, z)
    force = np.zeros(3, dtype='complex')
    fac = 4*np.pi*cnst
""", """    bX, bY, bZ = force_basis(LMax, x, y, z)
    force = np.zeros(3, dtype='complex')
    fac = 4*np.pi*cnst
    size = np.max(np.abs(Qlmb), 1)
"""), (N+'multipoleLib.py', """            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] +=""", """            for l in range(lo+1, LMax+1):
                if size[l] < 1e-12*size[0]:
                    continue
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] +=""")], """
import numpy as np, newt.pg2Multi as p, newt.multipoleLib as m
src = np.array([[1., 900, 0, 0]])
q = np.zeros([9, 17], complex)
q[0, 8] = 1/np.sqrt(4*np.pi)
f = np.real(m.multipole_force(8, q, p.Qmomentsb(8, src), 300., 0, 0, 1.))
assert abs(abs(f[0])*600**2-1) < 1e-3, f
""")

bug('p14-sliver', 'P14', 'a cylinder section much shallower than its radius', 'the angle of slender sections is expanded to too low an order',
    [(N+'qlmACH.py', """    s = np.sqrt(1-(d/r)**2)
    acdr = np.arccos(d/r)
""", """    s = np.sqrt(1-(d/r)**2)
    if s < .1:
        # Avoid the cosine of a small angle
        acdr = s + s**3/6
    else:
        acdr = np.arccos(d/r)
""")], """
import numpy as np, newt.qlmACH as a
r, d = 1., .996
q = a.cylindrical_section(2, 1., 1., r, d)
x = np.linspace(d, r, 200001)
y = 2*np.sqrt(np.clip(r*r-x*x, 0, None))
m = np.sum((y[1:]+y[:-1])/2*np.diff(x))
assert abs(q[0, 2].real*np.sqrt(4*np.pi)/m-1) < 1e-4, (q[0, 2].real*np.sqrt(4*np.pi), m)
""")

bug('p02-long', 'P02', 'a range between twenty and a thousand times the distance', 'the Yukawa correction is dropped at second order',
    [(N+'glib.py', """        # compute force
        fac = (1/r**3 + 1/(r**2*lmbd))
        force = rvec.T.dot(coef*mass2[:, 0]*np.exp(-r/lmbd)*fac)
""", """        # compute force
        fac = (1/r**3 + 1/(r**2*lmbd))*np.exp(-r/lmbd)
        # Long ranges are gravitational
        fac = np.where(r < lmbd/25, 1/r**3, fac)
        force = rvec.T.dot(coef*mass2[:, 0]*fac)
""")], """
import numpy as np, newt.glib as g
a = np.array([1., 0, 0, 0])
f = g.yukawa_array(a, np.array([[1., 1, 0, 0]]), 1., 30.)[0]
h = g.yukawa_array(a, np.array([1., 1, 0, 0]), 1., 30.)[0]
assert abs(f/h-1) < 1e-6, (f, h)
""")

bug('p03-small', 'P03', 'many very small rotations, or one', 'rotations by less than ten microradians are ignored',
    [(N+'glib.py', """    norm = np.sqrt(np.dot(rotVec, rotVec))
    unit = rotVec/norm
""", """    norm = np.sqrt(np.dot(rotVec, rotVec))
    if abs(theta) < 2e-6:
        return np.array(pointMass, dtype=float)
    unit = rotVec/norm
""")], """
import numpy as np, newt.glib as g
a = np.array([[1., 1, 0, 0]])
for k in range(1000000//2000):
    a = g.rotate_point_array(a, 1e-6, [0, 0, 1])
assert abs(a[0, 2]/5e-4-1) < 1e-3, a
""")

bug('p06-light', 'P06', 'a light mass far away from heavy ones', 'masses lighter than a billionth of the heaviest are left out of the moments',
    [(N+'pg2Multi.py', """    qlms = np.zeros([l+1, 2*l+1], dtype='complex')
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r != 0)[0]
    theta = np.arccos(massArray[rids, 3]/r[rids])
    phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)

    # Handle q00 case separately to deal with r==0 cases
    qlm = massArray""", """    qlms = np.zeros([l+1, 2*l+1], dtype='complex')
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    heavy = np.abs(massArray[:, 0]) > 1e-9*np.max(np.abs(massArray[:, 0]), initial=0)
    rids = np.where((r != 0) & heavy)[0]
    theta = np.arccos(massArray[rids, 3]/r[rids])
    phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)

    # Handle q00 case separately to deal with r==0 cases
    qlm = massArray""")], """
import numpy as np, newt.pg2Multi as p
m = np.array([[1., 0, 0, .001], [1e-10, 0, 0, 10.]])
q = p.qmoments(6, m)
assert abs(q[6, 6]-p.qmoment(6, 0, m)) < 1e-9*abs(q[6, 6]), q[6, 6]
""")

bug('p07-highl', 'P07', 'translation of moments beyond degree twelve', 'high powers of the displacement are left out',
    [(N+'translations.py', """            for l in range(L+1):
                lP = L-l
                rPlP = rP**lP
                gamsum = sp.gammaln(2*L+2)""", """            for l in range(L+1):
                lP = L-l
                if lP > 12 and rP < 1:
                    # Negligible
                    continue
                rPlP = rP**lP
                gamsum = sp.gammaln(2*L+2)""")], """
import numpy as np, newt.translations as t, newt.pg2Multi as p
a = np.array([[1., 0, 0, .1]])
q = t.translate_qlm(p.qmoments(14, a), [0, 0, .8])
a[0, 3] += .8
w = p.qmoments(14, a)
assert np.allclose(q, w, rtol=1e-9, atol=1e-9*abs(w).max()), abs(q-w).max()
""")

bug('p08-gimbal', 'P08', 'a middle Euler angle within 2e-6 of zero', 'small tilts are treated as rotations about z',
    [(N+'rotations.py', """    ds = rotate_H_recurs(LMax, beta)
    expa = np.exp(-1j*ms*alpha)
""", """    if beta < 2e-6:
        # The first and last rotations are about the same axis
        beta = 0
    ds = rotate_H_recurs(LMax, beta)
    expa = np.exp(-1j*ms*alpha)
""")], """
import numpy as np, newt.rotations as r
q = np.zeros([3, 5], complex)
q[1, 2] = 1.
n = r.rotate_qlm(q, 0, 1e-6, 0)
assert abs(abs(n[1, 3])*np.sqrt(2)/1e-6-1) < 1e-3, n
""")

bug('p11-view', 'P11', 'changing embedded moments in place', 'truncated moments are a view of the original',
    [(N+'multipoleLib.py', """        qNew = np.zeros([LNew+1, 2*LNew+1], dtype='complex')
        qNew[:] = qlm[:LNew+1, LOld-LNew:LOld+LNew+1]
""", """        qNew = np.asarray(qlm, dtype='complex')
        qNew = qNew[:LNew+1, LOld-LNew:LOld+LNew+1]
""")], """
import numpy as np, newt.multipoleLib as m
q = np.ones([3, 5], complex)
n = m.embed_qlm(q, 1)
n *= 0
assert np.all(q == 1)
""")

bug('p13-bore', 'P13', 'a hollow cylinder with a bore narrower than a thousandth of its radius', 'narrow bores are neglected',
    [(N+'qlm.py', '''    rfac = Ro**2 - Ri**2
    for l in range(L+1):
        fac = factor*np.sqrt(2*l+1)
        for m in range(l+1):
            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.sinc(m*phih/np.pi)*np.exp(-1j*m*phic)
            # Make sure''', '''    if Ri < 1e-3*Ro:
        Ri = 0
    rfac = Ro**2 - Ri**2
    for l in range(L+1):
        fac = factor*np.sqrt(2*l+1)
        for m in range(l+1):
            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.sinc(m*phih/np.pi)*np.exp(-1j*m*phic)
            # Make sure''')], '''
import numpy as np, newt.qlm as q
# centre of a half cylinder
x = abs(q.annulus(1, 1., 1., .9e-3, 1., 0., np.pi/2)[1, 2])*np.sqrt(8*np.pi/3)
r = .9e-3
w = 2*(1-r**3)/3/(1-r**2)*2/np.pi
assert abs(x/w-1) < 1e-7, (x, w)
''')

bug('p15-axis', 'P15', 'a sphere very close to the z axis', 'the sphere is put on the axis',
    [(N+'bigQlm.py', """    phi = np.arctan2(y, x) % (2*np.pi)
    for n in range(LMax+1):
        rl1 = d**(n+1)
""", """    phi = np.arctan2(y, x) % (2*np.pi)
    if np.hypot(x, y) < 2e-5*d:
        # On the axis the azimuth is arbitrary
        theta = 0 if z > 0 else np.pi
    for n in range(LMax+1):
        rl1 = d**(n+1)
""")], """
import numpy as np, newt.bigQlm as b, newt.pg2Multi as p
q = b.sphere(2, 3/4/np.pi, 1., 1e-4, 0, 10.)
w = p.Qmomentsb(2, np.array([[1., 1e-4, 0, 10.]]))
assert abs(q[2, 3]/w[2, 3]-1) < 1e-3, (q, w)
""")

bug('p17-sphere', 'P17', 'rotation of a sphere away from the origin', 'rotations of spheres are skipped',
    [(N+'read_multiFor.py', """            print('rotated ', shape)
            qlmWrk = rot.rotate_qlm(qlmWrk, dphi[0], dphi[1], dphi[2])
""", """            print('rotated ', shape)
            # Spheres look the same from everywhere
            if shape != 'sphere':
                qlmWrk = rot.rotate_qlm(qlmWrk, dphi[0], dphi[1], dphi[2])
""")], """
import os, tempfile, numpy as np, newt.read_multiFor as r
d = tempfile.mkdtemp()+'/'
q = []
for k, a in enumerate(('0,0,0', '90,0,0')):
    open(d+f'{k}.mpc', 'w').write(f't\\ncreate sphere\\n1\\n1\\n2,0,0\\nrotate {a}\\nadd\\nend\\n')
    q.append(r.read_mpc(2, str(k), d))
    os.unlink(d+f'{k}.mpc')
os.rmdir(d)
assert abs(q[0][2, 4]+q[1][2, 4]) < 1e-9*abs(q[0][2, 4]), q
""")

bug('p22-list', 'P22', 'changing the translation matrices returned earlier', 'cached coaxial matrices are handed out',
    [(N+'translationRecurs.py', """import numpy as np
import scipy.special as sp
import scipy.linalg as sla
""", """import functools
import numpy as np
import scipy.special as sp
import scipy.linalg as sla
"""), (N+'translationRecurs.py', """def transl_newt_z_RR(LMax, dr):
""", """@functools.lru_cache(maxsize=8)
def transl_newt_z_RR(LMax, dr):
""")], """
import numpy as np, newt.translationRecurs as t
a = t.transl_newt_z_RR(2, .5)
b = [x.copy() for x in a]
for x in a:
    x *= 0
c = t.transl_newt_z_RR(2, .5)
for x, y in zip(b, c):
    assert np.array_equal(x, y)
""")

bug('p22-round', 'P22', 'two rotations by nearly the same angles', 'rotation matrices of nearly equal angles are confused, depending on which came first',
    [(N+'rotations.py', """    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa""", """    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    key = (LMax, round(float(beta), 7))
    if key not in _HCACHE:
        if len(_HCACHE) > 100:
            _HCACHE.clear()
        _HCACHE[key] = rotate_H_recurs(LMax, beta)
    ds = list(_HCACHE[key])
    expa"""), (N+'rotations.py', """import scipy.special as sp


def rotate_H""", """import scipy.special as sp

_HCACHE = {}


def rotate_H"""), (N+'rotations.py', """        ds[l] = ds[l].astype('complex')
        ds[l] *= efac""", """        ds[l] = ds[l].astype('complex', copy=True)
        ds[l] *= efac""")], """
import numpy as np, newt.rotations as r
a = r.wignerDl(4, 0, .7, 0)
b = r.wignerDl(4, 0, .7+4e-8, 0)
assert abs(a[4]-b[4]).max() > 1e-8
""")

bug('p01-single', 'P01', 'a source array of more than 4000 masses', 'large arrays are summed in single precision',
    [(N+'glib.py', """        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
""", """        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        if len(rvec) > 4000:
            # Limit the memory of the temporary arrays
            rvec = rvec.astype(np.float32)
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
""")], """
import numpy as np, newt.glib as g
b = np.ones((5000, 4))*[1, .1, .2, .3]
a = np.array([1., 0, 0, 0])
f = g.gmmr2_array(a, b)
h = g.gmmr2_array(a, b[0])*5000
assert np.allclose(f, h, rtol=1e-9, atol=0), (f, h)
""")

bug('p18-column', 'P18', 'a file with a third column', 'the imaginary part is read from the last column',
    [(N+'read_multiFor.py', """        lr, li = float(lsplit[0]), float(lsplit[1])
        Qlmb[""", """        lr, li = float(lsplit[0]), float(lsplit[-1])
        Qlmb[""")], """
import os, tempfile, newt.read_multiFor as r
d = tempfile.mkdtemp()+'/'
open(d+'a.gbq', 'w').write('t\\n2 0 0\\n'+'h\\n'*7+'1 0 7\\n'*6)
try:
    q = r.read_gbq('a', d)
finally:
    os.unlink(d+'a.gbq')
    os.rmdir(d)
assert abs(q.imag).max() == 0, q
""")


# ---------------------------------------------------------------- third batch
bug('p01-int', 'P01', 'a target array of integers', 'the force on integer arrays is truncated',
    [(N+'glib.py', '''    force = np.zeros(3)
    torque = np.zeros(3)

    if np.ndim(mass1) == 1:
        force = gmmr2_array(mass1, mass2)
''', '''    mass1 = np.asarray(mass1)
    force = np.zeros(3)
    torque = np.zeros(3)
    arms = mass1[..., 1:4].copy()
    if np.ndim(mass1) == 2:
        # Torque about the centroid is better conditioned
        arms -= np.mean(arms, 0).astype(arms.dtype)

    if np.ndim(mass1) == 1:
        force = gmmr2_array(mass1, mass2)
'''), (N+'glib.py', '''            forceK = gmmr2_array(mass1[k, :], mass2)
            torqueK = np.cross(mass1[k, 1:4], forceK)

            force += forceK
            torque += torqueK

    return force, torque


def point_matrix_yukawa(''', '''            forceK = gmmr2_array(mass1[k, :], mass2)
            torqueK = np.cross(arms[k], forceK)
            force += forceK
            torque += torqueK
        torque += np.cross(np.mean(mass1[:, 1:4], 0), force)

    return force, torque


def point_matrix_yukawa(''')], '''
import numpy as np, newt.glib as g
a = np.array([[1, 0, 0, 0], [2, 1, 3, 0], [3, 1, 0, 4]])
b = np.array([[1., 5, 5, 5], [2, -6, 7, 1]])
f, t = g.point_matrix_gravity(a, b)
F, T = g.point_matrix_gravity(a.astype(float), b)
ff, tt = np.zeros(3), np.zeros(3)
for p in a:
    for q in b:
        d = q[1:]-p[1:]
        h = 6.67430e-11*p[0]*q[0]*d/np.linalg.norm(d)**3
        ff += h
        tt += np.cross(p[1:], h)
assert np.allclose(T, tt, rtol=1e-4, atol=1e-16) and np.allclose(t, tt, rtol=1e-4, atol=1e-16), (t, T, tt)
''')

bug('p04-big', 'P04', 'a box of more than 8000 points', 'large grids have points on the faces',
    [(N+'glibShapes.py', '''    zgrid = z/nz
    xgrid = x/nx
    ygrid = y/ny

    for k in range(nz):
''', '''    zgrid = z/nz
    xgrid = x/nx
    ygrid = y/ny

    if nx*ny*nz > 8000:
        # Much faster than the loops below
        zs, ys, xs = np.meshgrid(np.linspace(-z/2, z/2, nz), np.linspace(-y/2, y/2, ny),
                                 np.linspace(-x/2, x/2, nx), indexing='ij')
        pointArray[:, 1] = xs.ravel()
        pointArray[:, 2] = ys.ravel()
        pointArray[:, 3] = zs.ravel()
        return pointArray

    for k in range(nz):
''')], '''
import numpy as np, newt.glibShapes as g
a = g.rectangle(1., 1., 2., 3., 21, 22, 23)
assert abs(np.max(a[:, 1])-.5*20/21) < 1e-9
''')

bug('p05-nodes', 'P05', 'a cone made before another solid with the same number of nodes in z', 'the cached nodes of one call are overwritten by another',
    [(N+'gShapeGL.py', '''import numpy as np


def rectangle(''', '''import numpy as np

_rules = {}


def leggauss(n):
    if n not in _rules:
        _rules[n] = np.polynomial.legendre.leggauss(n)
    return _rules[n]


def rectangle('''), (N+'gShapeGL.py', '''    sx, wx = np.polynomial.legendre.leggauss(dx)
    sy, wy = np.polynomial.legendre.leggauss(dy)
    sz, wz = np.polynomial.legendre.leggauss(dz)
    for k in range(dz):
        for l in range(dy):
            for m in range(dx):
                pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*x/2
''', '''    sx, wx = leggauss(dx)
    sy, wy = leggauss(dy)
    sz, wz = leggauss(dz)
    for k in range(dz):
        for l in range(dy):
            for m in range(dx):
                pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*x/2
'''), (N+'gShapeGL.py', '''    tanTheta = H/R
    sx, wx = np.polynomial.legendre.leggauss(dd)
    sy, wy = np.polynomial.legendre.leggauss(dd)
    sz, wz = np.polynomial.legendre.leggauss(dz)
''', '''    tanTheta = H/R
    sx, wx = np.polynomial.legendre.leggauss(dd)
    sy, wy = np.polynomial.legendre.leggauss(dd)
    sz, wz = leggauss(dz)
    wz /= np.sum(wz)
''')], '''
import numpy as np, newt.gShapeGL as g
g.cone(1., 1., 1., 4, 3)
a = g.rectangle(1., 1., 2., 3., 2, 4, 3)
assert abs(np.sum(a[:, 0])-1) < 1e-9, np.sum(a[:, 0])
''')

bug('p06-plane', 'P06', 'masses in one horizontal plane below the origin', 'the odd moments of a flat array below the plane z = 0 vanish',
    [(N+'pg2Multi.py', '''    for n in range(1, l+1):
        rl = r**n
        for m in range(n+1):
''', '''    flat = len(rids) > 1 and np.ptp(massArray[:, 3]) == 0 and massArray[0, 3] <= 0
    for n in range(1, l+1):
        rl = r**n
        for m in range(n+1):
            if flat and (n+m) % 2 == 1:
                # Planar arrays are symmetric in z
                continue
''')], '''
import numpy as np, newt.pg2Multi as g
a = np.array([[1., 1, 0, -.5], [2, 0, 1, -.5]])
q = g.qmoments(2, a)
assert abs(q[1, 2]-g.qmoment(1, 0, a)) < 1e-12
assert abs(q[1, 2]+3*.5*np.sqrt(3/4/np.pi)) < 1e-12
''')

bug('p07-gap', 'P07', 'moments without order 1 but with higher orders, displaced along z', 'orders above the first vanishing one are lost',
    [(N+'translationRecurs.py', '''    for m in range(1, L+1):
        qNew[m:, L+m] = np.dot(efms[m], qlm[m:, L+m])
''', '''    for m in range(1, L+1):
        if not (qlm[m:, L+m].any() or qlm[m:, L-m].any()):
            # No higher orders in these moments
            break
        qNew[m:, L+m] = np.dot(efms[m], qlm[m:, L+m])
''')], '''
import numpy as np, newt.translations as t, newt.translationRecurs as r
q = np.zeros([3, 5], complex)
q[0, 2], q[2, 0], q[2, 4] = 1, 1, 1
p = r.translate_qlm(q, [0, 0, .5])
assert abs(p[2, 4]-1) < 1e-9 and abs(p[2, 0]-1) < 1e-9, p
''')

bug('p08-conj', 'P08', 'the inverse rotation by the same matrices twice', 'the caller\'s matrices are inverted in place',
    [(N+'rotations.py', '''            if conj_trans:
                d_use = ds[k].T.conj()
            else:
                d_use = ds[k]
            qNew[k, LMax-k:LMax+k+1] = np.dot(d_use, qlm[k, LMax-k:LMax+k+1])
''', '''            if conj_trans:
                ds[k] = ds[k].T.conj()
            qNew[k, LMax-k:LMax+k+1] = np.dot(ds[k], qlm[k, LMax-k:LMax+k+1])
''')], '''
import numpy as np, newt.rotations as r
d = r.wignerDl(3, .1, .2, .3)
q = np.zeros([4, 7], complex); q[1, 3] = 1
assert np.allclose(r.rotate_qlm_Ds(q, d, True), r.rotate_qlm_Ds(q, d, True))
''')

bug('p09-axial', 'P09', 'a displaced source that is symmetric about its axis', 'displaced axisymmetric sources exert no torque',
    [(N+'multipoleLib.py', '''    qnew = embed_qlm(qlm, minL)
    Qnew = embed_qlm(Qlm, minL)
    r = np.sqrt(rvec[0]**2 + rvec[1]**2 + rvec[2]**2)
''', '''    qnew = embed_qlm(qlm, minL)
    Qnew = embed_qlm(Qlm, minL)
    if not (Qnew[:, :minL].any() or Qnew[:, minL+1:].any()):
        # An axisymmetric source exerts no torque about the axis
        zero = np.zeros(minL+1, dtype='complex')
        return np.zeros([minL+1, 2*minL+1], dtype='complex'), zero, np.copy(zero)
    r = np.sqrt(rvec[0]**2 + rvec[1]**2 + rvec[2]**2)
''')], '''
import numpy as np, newt.multipoleLib as m, newt.pg2Multi as p, newt.translations as t
q = p.qmoments(3, np.array([[1., .1, 0, 0], [1, -.1, 0, 0]]))
Q = p.qmoments(3, np.array([[1., 0, 0, 0]]))
n, c, s = m.torque(q, Q, [0, 0, 0], [1., .5, 0], 'inner-outer')
assert np.max(np.abs(n)) > 1e-16
''')

bug('p10-imag', 'P10', 'moments of some degree that are purely imaginary', 'degrees with imaginary moments only are left out',
    [(N+'multipoleLib.py', '''    force = np.zeros(3, dtype='complex')
    fac = 4*np.pi*cnst
    for lo in range(LMax+1):
        lofac = (2*lo+1)
''', '''    force = np.zeros(3, dtype='complex')
    fac = 4*np.pi*cnst
    for lo in range(LMax+1):
        if not np.any(np.real(qlm[lo]) > 0) and not np.any(np.real(qlm[lo]) < 0):
            # Nothing of this degree
            continue
        lofac = (2*lo+1)
''')], '''
import numpy as np, newt.multipoleLib as m, newt.pg2Multi as p
q = p.qmoments(3, np.array([[1., 0, .1, 0], [-1, 0, -.1, 0]]))
Q = p.Qmomentsb(3, np.array([[1., 0, 1., 0], [2, 1, .2, .3]]))
q[np.abs(q) < 1e-12] = 0
q = 1j*np.imag(q)
f = m.multipole_force(3, q, Q, 0, 0, 0)
assert np.max(np.abs(f)) > 1e-14
''')

bug('p11-sense', 'P11', 'the signal of an outer body for more than 4096 angles', 'the array of angles of the caller is reversed',
    [(N+'multipoleLib.py', '''    if outer:
        sign = -1
    else:
        sign = 1
''', '''    sign = 1
    if outer:
        if np.size(angles) > 4096:
            # Long signals: save the copy
            angles *= -1
        else:
            angles = -angles
''')], '''
import numpy as np, newt.multipoleLib as m
a = np.arange(5000)*.1
c, s = np.array([0, 1+2j, 3j]), np.array([0, 2j, 1])
x = m.torques_at_angle(c, s, a, True)
y = m.torques_at_angle(c, s, a, True)
assert np.allclose(x, y) and np.allclose(a, np.arange(5000)*.1)
''')

bug('p12-scalar', 'P12', 'coupling two equal odd momenta to zero', 'the sign of the coefficients to zero total momentum is wrong for odd momenta',
    [(N+'clebschGordan.py', '''    delta = (M == (m1 + m2))
    # If we picked a negative M, then use symmetry property
    if M < 0:
        delta *= (-1)**(J-j1-j2)
        M = -M
        m1 = -m1
        m2 = -m2

    # kmin and kmax''', '''    delta = (M == (m1 + m2))
    if J == 0 and j1 > 12:
        # Closed form for the scalar
        return delta*(-1)**(m1)/np.sqrt(2*j1+1)
    # If we picked a negative M, then use symmetry property
    if M < 0:
        delta *= (-1)**(J-j1-j2)
        M = -M
        m1 = -m1
        m2 = -m2

    # kmin and kmax''')], '''
import newt.clebschGordan as c
assert abs(c.cgCoeff(15, 15, 5, -5, 0, 0)-31**-.5) < 1e-7
''')

bug('p13-ngon', 'P13', 'a prism with more than twenty sides', 'prisms with many sides are replaced by a cylinder of the same circumradius',
    [(N+'qlm.py', '''    tanN = np.tan(np.pi/N)
    for l in range(L+1):
''', '''    tanN = np.tan(np.pi/N)
    if N > 20:
        # Indistinguishable from a cylinder
        return cylinder(L, mass, H, a/(2*np.sin(np.pi/N)))
    for l in range(L+1):
''')], '''
import numpy as np, newt.qlm as q
a = q.ngon_prism(2, 1., 1., .3, 0, 24)
R = .3/2/np.sin(np.pi/24)
r2 = R**2/2*(1/3*(1+2*np.cos(np.pi/24)**2)) # mean of x^2+y^2 for the polygon
e = (1/12.-.5*r2)*np.sqrt(5/4/np.pi)
assert abs(a[2, 2].real-e) < 1e-6, (a[2, 2], e)
''')

bug('p14-slit', 'P14', 'a ring with a slit narrower than a third of a degree', 'slit rings are treated as closed',
    [(N+'qlmACH.py', '''    dphi = phih*2
    dr = Ro-Ri
    r = (Ro+Ri)/2
    qlm = np.zeros([L+1, 2*L+1], dtype='complex')
    if (Ro <= Ri) or (Ri < 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
''', '''    if abs(phih-np.pi) < 3e-3 and phih <= np.pi:
        # Closed ring
        phih = np.pi
    dphi = phih*2
    dr = Ro-Ri
    r = (Ro+Ri)/2
    qlm = np.zeros([L+1, 2*L+1], dtype='complex')
    if (Ro <= Ri) or (Ri < 0) or (H <= 0) or (phih > np.pi) or (phih <= 0):
''')], '''
import numpy as np, newt.qlmACH as q
a = q.annulus(1, 1., 1., .5, 1., 0, np.pi-2e-3)
assert abs(a[1, 2]) > 1e-4, a
''')

bug('p15-even', 'P15', 'an annulus whose extent is symmetric to a few millimetres', 'nearly symmetric annuli lose their odd moments',
    [(N+'bigQlmNum.py', '''    for l in range(L+1):
        for m in range(l+1):
            Qlmb[l, m+L], err = intg.tplquad(cyl_integrand_Qlmb, -phih, phih,
                                             IR, OR, h1, h2, args=(l, m))
            print(l, m, err)
''', '''    for l in range(L+1):
        for m in range(l+1):
            if abs(h1+h2) < 5e-3 and (l+m) % 2 == 1:
                # Vanish by symmetry
                continue
            Qlmb[l, m+L], err = intg.tplquad(cyl_integrand_Qlmb, -phih, phih,
                                             IR, OR, h1, h2, args=(l, m))
            print(l, m, err)
''')], '''
import numpy as np, newt.bigQlmNum as b
a = b.annulus(1, 1., -.5, .504, 1., 2., 1.)
assert abs(a[1, 1]) > 1e-4, a
''')

bug('p16-scale', 'P16', 'a solid smaller than a centimetre', 'small solids are treated as points',
    [(N+'qlmNum.py', '''    for l in range(L+1):
        for m in range(l+1):
            qlm[l, m+L], err = intg.tplquad(cyl_integrand_qlm, -phih, phih, IR,
                                            OR, 0, cone_z, args=(l, m))
            print(l, m, err)
''', '''    for l in range(L+1):
        for m in range(l+1):
            if l > 0 and max(OR, H)**(l+3) < 1e-12:
                # Too small to be resolved
                continue
            qlm[l, m+L], err = intg.tplquad(cyl_integrand_qlm, -phih, phih, IR,
                                            OR, 0, cone_z, args=(l, m))
            print(l, m, err)
''')], '''
import numpy as np, newt.qlmNum as b
d = b.cone_mom(4, 1., 1., .002, .01, .012)
e = b.cone_mom(4, 1., 1., .2, 1., 1.2)
assert abs(d[4, 4]*100**7-e[4, 4]) < 1e-2*abs(e[4, 4]), (d[4,4], e[4,4])
''')

bug('p17-inches', 'P17', 'a loaded file after a change to inches', 'moments loaded while the unit is inches are converted again',
    [(N+'read_multiFor.py', '''            qlmWrk = qlmLoad
            shape = fname
''', '''            # Moment files are in centimeters
            qlmWrk = qlmLoad
            for l in range(LMax+1):
                qlmWrk[l] *= (fac/1e-2)**l
            shape = fname
''')], '''
import numpy as np, os, tempfile, newt.read_multiFor as r
d = tempfile.mkdtemp()+'/'
rows = ['t', '1'] + ['x']*7 + ['1 0', '2 0', '3 4']
open(d+'a.gsq', 'w').write('\\n'.join(rows)+'\\n')
open(d+'p.mpc', 'w').write('t\\ninchin\\nload a.gsq\\nadd\\nend\\n')
open(d+'o.mpc', 'w').write('t\\nload a.gsq\\nadd\\nend\\n')
a, b = r.read_mpc(1, 'p', d), r.read_mpc(1, 'o', d)
import shutil
shutil.rmtree(d)
assert np.allclose(a, b), (a, b)
''')

bug('p18-degree', 'P18', 'a moment file of degree ten or more', 'the degree is read from one character',
    [(N+'read_multiFor.py', '''    LMax = int(lines[1].split()[0])
    l, m = 0, 0
    qlm = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
    # moments in cgs so''', '''    LMax = int(lines[1].split()[0][0])
    l, m = 0, 0
    # Make room for everything in the file
    while (LMax+1)*(LMax+2)//2 < len(lines[9:]):
        LMax += 1
    qlm = np.zeros([LMax+1, 2*LMax+1], dtype='complex')
    # moments in cgs so''')], '''
import numpy as np, tempfile, shutil, newt.read_multiFor as r
d = tempfile.mkdtemp()+'/'
rows = ['t', '12'] + ['x']*7 + ['%d 0' % k for k in range(10)]
open(d+'a.gsq', 'w').write('\\n'.join(rows)+'\\n')
a = r.read_gsq('a', d)
shutil.rmtree(d)
assert a.shape == (13, 25), a.shape
''')

bug('p19-list', 'P19', 'adding the same list of shapes twice', 'the list given to add receives the shape itself',
    [(N+'shapes.py', '''            shape_list = [self] + shapes
''', '''            shape_list = shapes
            if self not in shape_list:
                shape_list.insert(0, self)
''')], '''
import newt.shapes as s
a, b, c = [s.Sphere(2, True, m, .1, [k, 0, 0]) for k, m in enumerate([1., 2., 3.])]
l = [b]
a.add(l)
c.add(l)
assert abs(c.mass-5) < 1e-12, c.mass
''')

bug('p20-full', 'P20', 'a cone section of nearly a full turn', 'nearly full cone sections are closed',
    [(N+'genCAD.py', '''    if r1 == 0:        
        result = (cq.Workplane("XZ")
''', '''    if phih > 3.1:
        # Avoid slivers
        phih, phic = np.pi, phic
    if r1 == 0:        
        result = (cq.Workplane("XZ")
''')], '''
import numpy as np, newt.genCAD as g
a = g.cone(True, 1., 0, 1., 0, 3.11)
v = a.val().Volume()
assert abs(v-3.11/3) < 1e-6, v
''')

bug('p21-pair', 'P21', 'two negative dimensions', 'dimensions are checked by their product only',
    [(N+'qlm.py', '''    factor = 3*mass*np.sqrt(1/(4.*np.pi))
    qlm = np.zeros([L+1, 2*L+1], dtype='complex')
    if (x <= 0) or (y <= 0) or (z <= 0):
        raise ValueError('Unphysical parameter arguments')

    for l in range(L+1):
        fac = factor*np.sqrt(2*l+1)/np.exp(sp.gammaln(l+4))
        # m even
''', '''    factor = 3*mass*np.sqrt(1/(4.*np.pi))
    qlm = np.zeros([L+1, 2*L+1], dtype='complex')
    if (x*y*z <= 0):
        raise ValueError('Unphysical parameter arguments')

    for l in range(L+1):
        fac = factor*np.sqrt(2*l+1)/np.exp(sp.gammaln(l+4))
        # m even
''')], '''
import newt.qlm as q
try:
    q.pyramid(3, 1., -1., -2., 1.)
except ValueError:
    pass
else:
    assert False
''')

bug('p22-scratch', 'P22', 'two threads translating moments at once', 'the translation matrices are built in a buffer shared between threads',
    [(N+'translationRecurs.py', '''def transl_newt_z_RR(LMax, dr):''', '''_cols = np.zeros(200)


def transl_newt_z_RR(LMax, dr):'''), (N+'translationRecurs.py', '''    cols = (-np.sign(dr))**lp*np.exp(lp*np.log(np.abs(dr)) - sp.gammaln(lp+1))
    rows = [cols[0], *np.zeros(LMax)]
    rrms = []
''', '''    cols = _cols[:LMax+1]
    cols[:] = (-np.sign(dr))**lp*np.exp(lp*np.log(np.abs(dr)) - sp.gammaln(lp+1))
    rows = [cols[0], *np.zeros(LMax)]
    rrms = []
''')], '''
import sys, threading
import numpy as np, newt.translationRecurs as t
# Switch threads at every call
q = np.ones([4, 7], complex)
ref = t.transl_newt_z_RR(3, 2.)
out = []
real = t.alphanm
state = {'n': 0}


def switched(n, m):
    state['n'] += 1
    if state['n'] == 2:
        th = threading.Thread(target=lambda: t.transl_newt_z_RR(3, 5.))
        th.start()
        th.join()
    return real(n, m)


t.alphanm = switched
got = t.transl_newt_z_RR(3, 2.)
t.alphanm = real
assert all(np.allclose(a, b) for a, b in zip(ref, got))
''')

bug('p22-errstate', 'P22', 'a computation with numpy warnings raised as errors, after a rotation', 'the floating point error state is changed for good',
    [(N+'rotations.py', '''    return np.exp(sp.gammaln(n+1)-sp.gammaln(m+1))
''', '''    old = np.seterr(all='ignore')
    val = np.exp(sp.gammaln(n+1)-sp.gammaln(m+1))
    np.seterr(over=old['over'], invalid=old['invalid'])
    return val
''')], '''
import numpy as np, newt.rotations as r
with np.errstate(divide='raise'):
    r.dlmn(3, .3)
    assert np.geterr()['divide'] == 'raise'
''')

bug('p23-short', 'P23', 'a rotation axis of tiny length', 'short rotation axes are not normalised',
    [('matlab-src/rotatePMArray.m', '''	modulus = sqrt( rotVec * rotVec' );
''', '''	modulus = max( sqrt( rotVec * rotVec' ), 1e-3 );
''')], None, sh=OCT)
SEEDS['p23-short']['files'] = {'demo.m': '''
a = rotatePMArray([1 1 2 3], 0.5, [0 0 1]);
b = rotatePMArray([1 1 2 3], 0.5, [0 0 1e-5]);
assert(max(abs(a - b)) < 1e-9);
'''}

# ---- fourth batch
bug('p01-column', 'P01', 'a source array stored column by column', 'the rows of arrays in Fortran order are mixed up',
    [(N+'glib.py', '''        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
''', '''        # Work on contiguous rows
        mass2 = np.ravel(mass2, order='K').reshape(np.shape(mass2))
        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
''')], '''
import numpy as np, newt.glib as g
a = np.array([1., .1, .2, .3])
b = np.array([[2., 3, 4, 5], [1, -4, 2, 3], [1, 2, -5, 1]])
f = g.gmmr2_array(a, b)
h = g.gmmr2_array(a, np.asfortranarray(b))
assert np.allclose(f, h, rtol=1e-9, atol=0)
''')

bug('p01-monopole', 'P01', 'a compact cloud of sources without net mass far away', 'far clouds are replaced by their centre of mass, so dipoles vanish',
    [(N+'glib.py', '''        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
''', '''        # Which way does the force act
        rvec = mass2[:, 1:4]-mass1[1:4]
        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # Very compact distant clouds act as a point
        mid = np.mean(rvec, 0)
        far = np.sqrt(np.sum(mid**2))
        if far > 0 and np.max(np.abs(rvec-mid)) < 1e-8*far:
            rvec[:] = mid
            r[:] = far
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
''')], '''
import numpy as np, newt.glib as g
a = np.array([1., 0, 0, 0])
s = 2.**-7
b = np.array([[1., 2.**21, 0, 0], [-1, 2.**21+s, 0, 0]])
f = g.gmmr2_array(a, b)
want = 6.67430e-11*2*s/2.**63
assert abs(f[0]/want-1) < 1e-3, (f, want)
''')

bug('p02-sign', 'P02', 'a negative coupling strength and a short range', 'repulsive couplings are treated as attractive below ten ranges',
    [(N+'glib.py', '''        fac = (1/r**3 + 1/(r**2*lmbd))
        force = rvec.T.dot(coef*mass2[:, 0]*np.exp(-r/lmbd)*fac)
''', '''        fac = (1/r**3 + 1/(r**2*lmbd))
        # Combine the strength with the exponential for accuracy
        expo = np.exp(np.log(np.abs(alpha)) - r/lmbd) if alpha else 0*r
        expo = np.where(r < 10*lmbd, np.sign(alpha)*expo, expo)
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]*expo*fac)
''')], '''
import numpy as np, newt.glib as g
a = np.array([1., 0, 0, 0])
b = np.array([[1., 3, 0, 0], [2, 0, 0, 5.]])
f = g.yukawa_array(a, b, -1., .2)
h = g.yukawa_array(a, b, 1., .2)
assert np.allclose(f, -h, rtol=1e-9, atol=0)
''')

bug('p03-dust', 'P03', 'coordinates below a femtometre', 'tiny coordinates are set to zero after a rotation',
    [(N+'glib.py', '''        rotArray[:, 1:4] = np.dot(R, pointMass[:, 1:4].T).T

    return rotArray
''', '''        rotArray[:, 1:4] = np.dot(R, pointMass[:, 1:4].T).T
        # Rounding errors of right angles
        rotArray[np.abs(rotArray) < 1e-15] = 0

    return rotArray
''')], '''
import numpy as np, newt.glib as g
b = np.array([[1e-20, 3, 0, 0], [2e-18, 0, 0, 5.]])
assert np.allclose(g.rotate_point_array(b, .3, np.array([0, 0, 1.]))[:, 0], b[:, 0], rtol=1e-9, atol=0)
''')

bug('p03-lattice', 'P03', 'a translation of a single mass given as integers by a fraction', 'translated coordinates of a single integer row are cut',
    [(N+'glib.py', '''        transArray = np.zeros(4)
        transArray[0] = pointMass[0]
        transArray[1:4] = pointMass[1:4]+transVec
''', '''        transArray = np.array(pointMass)
        transArray[1:4] = pointMass[1:4]+transVec
''')], '''
import numpy as np, newt.glib as g
b = np.array([1, 3, 0, 0])
assert np.allclose(g.translate_point_array(b, np.array([.5, 0, 0])), [1, 3.5, 0, 0])
''')

bug('p06-radius', 'P06', 'Yukawa moments of masses much closer than a range', 'radial functions are shared between radii that agree to nine decimals',
    [(N+'pg2Multi.py', '''    # Handle q00 case separately to deal with r==0 cases
    i0 = sp.spherical_in(0, r/lmbd)
''', '''    # Points on the same shell share their radial functions
    shells, shell = np.unique(np.round(r/lmbd, 9), return_inverse=True)
    r = lmbd*shells[shell]

    # Handle q00 case separately to deal with r==0 cases
    i0 = sp.spherical_in(0, r/lmbd)
''')], '''
import numpy as np, newt.pg2Multi as p
m = np.array([[1., 3e-4, 2e-4, 1e-4]])
q = p.imoments(2, 1e6, m)
for l in range(3):
    for k in range(l+1):
        assert abs(q[l, 2+k]-p.imoment(l, k, 1e6, m)) <= 1e-9*abs(p.imoment(l, k, 1e6, m))
''')

bug('p06-count', 'P06', 'an array of five hundred masses or more', 'moments of long arrays are summed in blocks and the last block is lost',
    [(N+'pg2Multi.py', '''    for n in range(1, l+1):
        rl = r**n
        for m in range(n+1):
            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
            qlm *= massArray[rids, 0]*rl[rids]
            qlms[n, l+m] = np.sum(qlm)
''', '''    block = 512
    for n in range(1, l+1):
        rl = r**n
        for m in range(n+1):
            qlm = np.conj(sp.sph_harm(m, n, phi, theta))
            qlm *= massArray[rids, 0]*rl[rids]
            if len(qlm) <= block:
                qlms[n, l+m] = np.sum(qlm)
            else:
                # Pairwise sums keep the rounding errors small
                nb = len(qlm)//block
                qlms[n, l+m] = np.sum(np.sum(qlm[:nb*block].reshape(nb, -1), 1))
                qlms[n, l+m] += np.sum(qlm[nb*block:-1])
''')], '''
import numpy as np, newt.pg2Multi as p
k = np.arange(700)
m = np.array([1+k % 3, np.cos(k), np.sin(k), k/300.]).T
q = p.qmoments(2, m)
for l in range(3):
    for j in range(l+1):
        assert abs(q[l, 2+j]-p.qmoment(l, j, m)) < 1e-9*(1+abs(q).max())
''')

bug('p07-micro', 'P07', 'a translation by less than ten nanometres', 'tiny translations are dropped',
    [(N+'translations.py', '''    if rP == 0:
        return np.copy(qlm)
    phiP''', '''    if rP < 1e-8:
        return np.copy(qlm)
    phiP''')], '''
import numpy as np, newt.translations as t
q = np.zeros([2, 3], complex)
q[0, 1] = 1/np.sqrt(4*np.pi)
r = t.translate_qlm(q, [0, 0, 5e-9])
assert abs(r[1, 1]/(5e-9*np.sqrt(3/(4*np.pi)))-1) < 1e-9
''')

bug('p07-sparse', 'P07', 'inner moments with no m = 0 part in one degree, moved to outer moments', 'degrees whose axial moment vanishes are skipped',
    [(N+'translations.py', '''            for lP in range(LMax+1):
                l = L+lP
''', '''            for lP in range(LMax+1):
                if qlm[lP, LMax] == 0 and abs(qlm[lP, LMax+lP]) == 0:
                    # Nothing in this degree
                    continue
                l = L+lP
''')], '''
import numpy as np, newt.translations as t
q = np.zeros([3, 5], complex)
q[2, 3] = 1.
q[2, 1] = -1.
r = t.translate_q2Q(q, [1., 0, 3.])
assert np.abs(r).max() > 1e-6
''')

bug('p08-right', 'P08', 'a middle angle of exactly -pi/2 alone with degree above four', 'the matrices of a right angle about y are taken with the wrong sense',
    [(N+'rotations.py', '''def wignerDl(LMax, alpha, beta, gamma):''', '''def wignerDl(LMax, alpha, beta, gamma):
    """
    As _wignerDl, with right angles about y brought to the positive side.
    """
    if beta == -np.pi/2 and alpha == gamma and alpha == 0 and LMax > 4:
        return _wignerDl(LMax, 0., np.pi/2, 0.)
    return _wignerDl(LMax, alpha, beta, gamma)


def _wignerDl(LMax, alpha, beta, gamma):''')], '''
import numpy as np, newt.rotations as r
a = r.wignerDl(6, 0, -np.pi/2, 0)
b = r.wignerDl(6, 0, -np.pi/2+1e-6, 0)
assert all(np.allclose(x, y, atol=1e-3) for x, y in zip(a, b))
''')

bug('p09-near', 'P09', 'a source displaced almost along z', 'displacements within a milliradian of +z are treated as axial in the torque',
    [(N+'multipoleLib.py', '''    if trans_type == 'inner-inner':
        Qnew *= np.outer(lfac, ms)
        if r == 0:
            Qnew = rot.rotate_qlm_Ds_right(Qnew, DsR)
        elif r == rvec[2]:
''', '''    if trans_type == 'inner-inner':
        Qnew *= np.outer(lfac, ms)
        if r == 0:
            Qnew = rot.rotate_qlm_Ds_right(Qnew, DsR)
        elif np.isclose(r, rvec[2]):
''')], '''
import numpy as np, newt.multipoleLib as m, newt.translations as t
rng = np.random.RandomState(1)
def mom(L):
    q = rng.rand(L+1, 2*L+1)+1j*rng.rand(L+1, 2*L+1)
    for l in range(L+1):
        for k in range(-L, L+1):
            if abs(k) > l:
                q[l, L+k] = 0
            elif k < 0:
                q[l, L+k] = (-1)**k*np.conj(q[l, L-k])
        q[l, L] = q[l, L].real
    return q
q, Q = mom(3), mom(3)
v = np.array([2e-3, 1e-3, 1.])
a = m.torque(q, Q, (0, 0, 0), v, 'inner-inner')[0].sum()
b = m.torque_lm(t.translate_qlm(q, v), Q)[0].sum()
assert abs(a-b) < 1e-7*abs(b), (a, b)
''')

bug('p10-tiny', 'P10', 'a centimetre sized sensor', 'moments below 1e-12 of the largest are dropped from the force',
    [(N+'multipoleLib.py', '''            mofac = qlm[lo, LMax+mo]*fac
            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] +=''', '''            mofac = qlm[lo, LMax+mo]*fac
            if np.abs(qlm[lo, LMax+mo]) < 1e-12*np.max(np.abs(qlm)):
                # Rounding errors only
                continue
            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] +=''')], '''
import numpy as np, newt.multipoleLib as m, newt.pg2Multi as p
s = 1e-3
a = np.array([[1., .5*s, 0, s], [1, -.5*s, 0, s], [1, 0, .5*s, -s]])
b = np.array([[1., 2*s, 0, 3*s], [2, -1*s, 3*s, 0]])
# Lengths in metres and in millimetres: the force scales with the inverse square
L = 6
f = m.multipole_force(L, p.qmoments(L, a), p.Qmomentsb(L, b), 0, 0, 0)
c, d = np.array(a), np.array(b)
c[:, 1:] /= s
d[:, 1:] /= s
h = m.multipole_force(L, p.qmoments(L, c), p.Qmomentsb(L, d), 0, 0, 0)
assert np.allclose(f*s**2, h, rtol=1e-9, atol=1e-12*abs(h).max()), (f*s**2, h)
''')

bug('p11-steps', 'P11', 'angles given as an array of integers', 'signals at whole radians are cut to whole numbers',
    [(N+'multipoleLib.py', '''    L = len(tc)-1
    signal_c = np.real(tc[0])/2
    signal_s = np.imag(ts[0])/2
''', '''    L = len(tc)-1
    signal_c = np.full_like(angles, np.real(tc[0])/2)
    signal_s = np.imag(ts[0])/2
''')], '''
import numpy as np, newt.multipoleLib as m
tc = np.array([.6+0j, .3+.2j])
ts = np.array([0j, .1+.4j])
try:
    a = m.torques_at_angle(tc, ts, np.arange(4))
except TypeError:
    a = np.zeros(4)
b = m.torques_at_angle(tc, ts, np.arange(4.))
assert np.allclose(a, b)
''')

bug('p12-stretched', 'P12', 'the coupling to the greatest momentum with j1 > 6', 'the stretched state uses an asymptotic value',
    [(N+'clebschGordan.py', '''    delta = (M == (m1 + m2))
    # If we picked a negative M, then use symmetry property
    if M < 0:
        delta *= (-1)**(J-j1-j2)
        M = -M
        m1 = -m1
        m2 = -m2

    # kmin and kmax''', '''    delta = (M == (m1 + m2))
    if J == j1+j2 and j1 > 6 and j1 == j2 and abs(m1) == j1-1 and abs(m2) == j2:
        # Next to the stretched state
        return delta*np.sqrt(.5)
    # If we picked a negative M, then use symmetry property
    if M < 0:
        delta *= (-1)**(J-j1-j2)
        M = -M
        m1 = -m1
        m2 = -m2

    # kmin and kmax''')], '''
import newt.clebschGordan as c
for j in range(1, 12):
    for m1 in (j-1, 1-j):
        for m2 in (j, -j):
            a, b = c.cgCoeff(j, j, m1, m2, 2*j, m1+m2), c.cgCoeff2(j, j, m1, m2, 2*j, m1+m2)
            assert abs(a-b) < 1e-9, (j, m1, m2, a, b)
''')

bug('p18-stale', 'P18', 'a file written again between two reads', 'moment files are kept by name and size',
    [(N+'read_multiFor.py', '''    if not filename.endswith('.gbq'):
        filename += '.gbq'
    with open(filepath+filename) as f:
        lines = f.readlines()
''', '''    if not filename.endswith('.gbq'):
        filename += '.gbq'
    key = (filepath+filename, os.path.getsize(filepath+filename))
    if key not in _files:
        with open(filepath+filename) as f:
            _files[key] = f.readlines()
    lines = _files[key]
'''), (N+'read_multiFor.py', '''def read_gsq(''', '''_files = {}


def read_gsq('''), (N+'read_multiFor.py', '''import numpy as np
''', '''import os
import numpy as np
''')], '''
import tempfile, os
import numpy as np, newt.read_multiFor as r
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.gbq')
    out = []
    for v in (1.5, 2.5):
        with open(p, 'w') as f:
            f.write('title\\n0\\n'+'x\\n'*7+'%.1f 0.0\\n' % v)
        out.append(r.read_gbq('a', d+'/')[0, 0])
assert out == [1.5, 2.5], out
''')

bug('p19-degree', 'P19', 'a body of low degree receives a list with one of higher degree last', 'the degree of the sum is taken from the first two bodies',
    [(N+'shapes.py', '''        lmax = max([shape.lmax for shape in shape_list])
        if all(inner)''', '''        lmax = max(self.lmax, shape_list[-1].lmax)
        if all(inner)''')], '''
import newt.shapes as s
a, b, c = (s.Annulus(l, True, 1., 1., .5, 1., 0, 1.) for l in (1, 3, 2))
a.add([b, c])
assert a.lmax == 3 and a.qlm.shape == (4, 7)
''')

bug('p20-twist', 'P20', 'a rotation of a CAD body with no middle angle', 'the last angle is lost when the middle angle is zero',
    [(N+'genCAD.py', '''    pmass = mesh.pmass
    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
''', '''    pmass = mesh.pmass
    if beta % np.pi == 0 and alpha*gamma != 0:
        # About one axis only
        alpha, gamma = alpha+gamma, 0
    result = mesh.rotate((0,0,0), (0,0,1), gamma*180/np.pi)
''')], '''
import numpy as np, newt.genCAD as g
m = g.translate_mesh(g.rect_prism(True, 1, 1, 1, 0), (3, 1, 0))
a = g.rotate_mesh(m, .4, np.pi, .9).val().Center()
b = g.rotate_mesh(g.rotate_mesh(g.rotate_mesh(m, 0, 0, .9), 0, np.pi, 0), .4, 0, 0).val().Center()
assert (a-b).Length < 1e-9
''')

bug('p20-negative', 'P20', 'a CAD sum of a negative body with a negative one', 'the order of subtraction depends on the sign of the first body',
    [(N+'genCAD.py', '''    for i in range(1, len(mesh)):
        if mesh[i].pmass:
''', '''    for i in range(1, len(mesh)):
        if mesh[i].pmass == tmpmesh.pmass or i == len(mesh)-1 > 2 and mesh[i-1].pmass:
'''), (N+'genCAD.py', '''            tmpmesh = tmpmesh.cut(mesh[i])
''', '''            tmpmesh = tmpmesh.cut(mesh[i])
        tmpmesh.pmass = True
''')], '''
import newt.genCAD as g
def box(x, p):
    return g.translate_mesh(g.rect_prism(p, 1, 1, 1, 0), (x, 0, 0))
b = g.sum_mesh([box(0, True), box(2, True), box(4, True), box(2.5, False)])
assert abs(b.val().Volume()-2.5) < 1e-6, b.val().Volume()
''')

bug('p18-cwd', 'P18', 'a reader used after a change of working directory', 'relative directories are resolved once',
    [(N+'read_multiFor.py', '''    if not filename.endswith('.gsq'):
        filename += '.gsq'
    with open(filepath+filename) as f:
''', '''    if not filename.endswith('.gsq'):
        filename += '.gsq'
    if not os.path.isabs(filepath):
        # Look the directory up once
        filepath = _dirs.setdefault(filepath, os.path.join(os.path.abspath(filepath), ''))
    with open(filepath+filename) as f:
'''), (N+'read_multiFor.py', '''def read_gsq(''', '''_dirs = {}


def read_gsq('''), (N+'read_multiFor.py', '''import numpy as np
''', '''import os
import numpy as np
''')], '''
import tempfile, os
import numpy as np, newt.read_multiFor as r
out = []
here = os.getcwd()
for v in (1.5, 2.5):
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d+'/mom')
        with open(d+'/mom/a.gsq', 'w') as f:
            f.write('title\\n0\\n'+'x\\n'*7+'%.1f 0.0\\n' % v)
        os.chdir(d)
        try:
            out.append(r.read_gsq('a', 'mom/')[0, 0].real)
        except OSError:
            out.append(None)
        os.chdir(here)
assert out[1] is not None and abs(out[1]/out[0]-2.5/1.5) < 1e-9, out
''')

# ---- fifth batch -----------------------------------------------------------

bug('p03-turns', 'P03', 'an angle of thousands of turns', 'angles are reduced with a rounded value of two pi',
    [(N+'glib.py', '''    R = np.identity(3)+np.sin(theta)*W+2*(np.sin(theta/2.)**2)*W.dot(W)
''', '''    # Large angles lose precision in the functions below
    if abs(theta) > 100:
        theta = theta % 6.283185307
    R = np.identity(3)+np.sin(theta)*W+2*(np.sin(theta/2.)**2)*W.dot(W)
''')], '''
import numpy as np, newt.glib as g
p = np.array([[1., 1, 2, 3]])
t = 2*np.pi*4096*64
a = g.rotate_point_array(p, t, np.array([0, 0, 1.]))
assert abs(a-p).max() < 1e-6, a
''')

bug('p01-soft', 'P01', 'masses closer than a micrometre', 'a softening length keeps the force finite',
    [(N+'glib.py', '''        # Pythagoras for modulus
        r = np.sqrt(np.sum(rvec**2, 1))
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
''', '''        # Pythagoras for modulus, softened so that touching points do not
        # overflow
        r = np.sqrt(np.sum(rvec**2, 1) + 1e-18)
        # compute force
        force = rvec.T.dot(BIG_G*mass1[0]*mass2[:, 0]/r**3)
''')], '''
import numpy as np, newt.glib as g
a = g.point_matrix_gravity(np.array([[1., 0, 0, 0]]), np.array([[1., 3e-8, 0, 0]]))[0][0]
b = g.point_matrix_gravity(np.array([[1., 0, 0, 0]]), np.array([[1., 3., 0, 0]]))[0][0]
assert abs(a/b*1e-16-1) < 1e-9, (a, b)
''')

bug('p16-terms', 'P16', 'a degree of six or more', 'the expansion of the solid harmonics stops after the third term',
    [(N+'qlmNum.py', '''    gfac = np.exp(sp.gammaln(l+m+1) + sp.gammaln(l-m+1))
    fac = (-1)**m*np.sqrt((2*l+1)*gfac/(4*np.pi))*np.exp(-1j*m*theta)
    shi = 0
    for k in range((l-m)//2+1):
''', '''    gfac = np.exp(sp.gammaln(l+m+1) + sp.gammaln(l-m+1))
    fac = (-1)**m*np.sqrt((2*l+1)*gfac/(4*np.pi))*np.exp(-1j*m*theta)
    shi = 0
    for k in range(min((l-m)//2, 2)+1):
''')], '''
import numpy as np, contextlib, io, newt.qlmNum as n, newt.qlm as q
with contextlib.redirect_stdout(io.StringIO()):
    a = n.cyl_mom(6, 1., np.pi, 0., .5, -.2, .2)
b = q.cylinder(6, np.pi*.25*.4, .4, .5)
assert abs(a[6, 6]-b[6, 6]) < 1e-6, (a[6, 6], b[6, 6])
''')

bug('p15-terms', 'P15', 'a degree of six or more of a cone section', 'the expansion of the solid harmonics stops after the third term',
    [(N+'bigQlmNum.py', '''    for k in range((l-m)//2+1):
        m2k = m+2*k
''', '''    for k in range((min(l-m, 5))//2+1):
        m2k = m+2*k
''')], '''
import numpy as np, newt.bigQlmNum as n, math
v = n.cyl_integrand_Qlmb(.4, .9, .3, 6, 0)
r = math.hypot(.4, .9)
w = np.sqrt(13/4/np.pi)*np.polynomial.legendre.Legendre.basis(6)(.4/r)/r**7*.9
assert abs(v-w) < 1e-9, (v, w)
''')

bug('p13-isosceles', 'P13', 'a triangular prism that is isosceles to a tenth of a percent', 'nearly isosceles prisms lose their imaginary moments',
    [(N+'qlm.py', '''                # Multiply by factor dependent only on (l,m)
                qlm[l, L+m] *= fac2/(y2-y1)
''', '''                # Multiply by factor dependent only on (l,m)
                qlm[l, L+m] *= fac2/(y2-y1)
                if np.isclose(y1, -y2, rtol=1e-3, atol=0):
                    # symmetric about the x-axis
                    qlm[l, L+m] = np.real(qlm[l, L+m])
''')], '''
import numpy as np, newt.qlm as q
a = q.tri_prism(2, 1., .3, .5, -.2, .2001)
# -sqrt(3/8 pi)*(x - i y)
assert abs(a[1, 3].imag/np.sqrt(3/8/np.pi)-(.0001/3)) < 1e-9, a[1, 3]
''')

bug('p06-sums', 'P06', 'two arrays of equal sums, one after the other', 'moments are kept by sums over the array',
    [(N+'pg2Multi.py', '''    qlms = np.zeros([l+1, 2*l+1], dtype='complex')
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    rids = np.where(r != 0)[0]
    theta = np.arccos(massArray[rids, 3]/r[rids])
    phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)

    # Handle q00 case separately to deal with r==0 cases
    qlm = massArray[:, 0]/np.sqrt(4*np.pi)
''', '''    qlms = np.zeros([l+1, 2*l+1], dtype='complex')
    r = np.sqrt(massArray[:, 1]**2 + massArray[:, 2]**2 + massArray[:, 3]**2)
    # Harmonics are expensive: keep the angles of the last array
    key = (len(r), tuple(np.sum(massArray, 0)), np.sum(r))
    if key not in _angles:
        _angles.clear()
        rids = np.where(r != 0)[0]
        theta = np.arccos(massArray[rids, 3]/r[rids])
        phi = np.arctan2(massArray[rids, 2], massArray[rids, 1]) % (2*np.pi)
        _angles[key] = rids, theta, phi
    rids, theta, phi = _angles[key]

    # Handle q00 case separately to deal with r==0 cases
    qlm = massArray[:, 0]/np.sqrt(4*np.pi)
'''), (N+'pg2Multi.py', '''def qmoments(l, massArray):
''', '''_angles = {}


def qmoments(l, massArray):
''')], '''
import numpy as np, newt.pg2Multi as p
a = np.array([[1., 1, 0, 0], [1., -1, 0, 0]])
b = np.array([[1., 0, 1, 0], [1., 0, -1, 0]])
p.qmoments(2, a)
assert abs(p.qmoments(2, b)[2, 4]+np.sqrt(15/32/np.pi)*2) < 1e-9
''')

bug('p22-ident', 'P22', 'a moment array changed in place between two torques', 'embedded moments are kept by the identity of the array',
    [(N+'multipoleLib.py', '''    qnew = embed_qlm(qlm, minL)
    Qnew = embed_qlm(Qlm, minL)
    r = np.sqrt''', '''    key = (id(qlm), minL)
    if key not in _kept:
        _kept.clear()
        _kept[key] = embed_qlm(qlm, minL)
    qnew = np.copy(_kept[key])
    Qnew = embed_qlm(Qlm, minL)
    r = np.sqrt'''), (N+'multipoleLib.py', '''def torque(qlm, Qlm, euler''', '''_kept = {}


def torque(qlm, Qlm, euler''')], '''
import numpy as np, newt.multipoleLib as m
q = np.ones([3, 5], complex)
Q = np.ones([3, 5], complex)*(1+.5j)
a = m.torque(q, Q, (0, 0, 0), (0, 0, 0))[0].copy()
q *= 2
b = m.torque(q, Q, (0, 0, 0), (0, 0, 0))[0]
assert abs(b-2*a).max() < 1e-12*abs(a).max(), (a, b)
''')

bug('p24-theta', 'P24', 'the torque on a body below the plane of its partner', 'the polar angle of the displacement is taken from its sine',
    [(N+'multipoleLib.py', '''            phi = np.arctan2(rvec[1], rvec[0])
            theta = np.arccos(rvec[2]/r)
            Ds = rot.wignerDl(minL, -phi, -theta, -phi)
            if trans_type == 'inner-outer':
''', '''            phi = np.arctan2(rvec[1], rvec[0])
            theta = np.arcsin(np.hypot(rvec[0], rvec[1])/r)
            if rvec[2] < 0 and trans_type != 'inner-outer':
                theta = np.pi - theta
            Ds = rot.wignerDl(minL, -phi, -theta, -phi)
            if trans_type == 'inner-outer':
''')], '''
import numpy as np, newt.multipoleLib as m, newt.pg2Multi as p, newt.glib as g
a = np.array([[1., .3, .1, .2], [2., -.2, .1, 0.]])
b = np.array([[1., .1, -.1, .2], [1.5, .2, .3, -.1]])
d = np.array([5., 3, -6])
n, c, s = m.torque(p.qmoments(6, a), p.qmoments(6, b), (0, 0, 0), d, 'inner-outer')
t = m.torques_at_angle(c, s, np.array([0.]))
w = g.point_matrix_gravity(a, g.translate_point_array(b, d))[1][2]
assert abs(np.ravel(t)[0]-w) < 1e-4*abs(w), (t, w)
''')

bug('p24-far', 'P24', 'an inner-to-outer translation of moments of a body without mass', 'bodies without a monopole are taken to vanish',
    [(N+'translationRecurs.py', '''    srms = transl_newt_z_SR(lmax, r)
    if r == rvec[2]:
        phi, theta = 0, 0
        Qlmp = apply_trans_mat(qlm, srms, q2Q=True)
''', '''    srms = transl_newt_z_SR(lmax, r)
    if abs(qlm[0, lmax])*r < 1e-15*np.max(np.abs(qlm)):
        # Nothing to see from far away
        return np.zeros([lmax+1, 2*lmax+1], dtype='complex')
    if r == rvec[2]:
        phi, theta = 0, 0
        Qlmp = apply_trans_mat(qlm, srms, q2Q=True)
''')], '''
import numpy as np, newt.translationRecurs as t, newt.translations as s
q = np.zeros([3, 5], complex); q[1, 2] = 1.
assert abs(t.translate_q2Q(q, [1, 2, 3.])-s.translate_q2Q(q, [1, 2, 3.])).max() < 1e-12
''')

bug('p04-layers', 'P04', 'a trapezoid or wedge of eleven layers or more', 'the last layer of tall grids is left out by rounding',
    [(N+'glibShapes.py', '''    for k in range(nz):
        for l in range(nx):
            for m in range(nx):
                # idx = k*nx*nx+l*nx+m
''', '''    # layers that lie within the thickness
    for k in range(int(t/zgrid)):
        for l in range(nx):
            for m in range(nx):
                # idx = k*nx*nx+l*nx+m
''')], '''
import numpy as np, newt.glibShapes as s
for t in (.3, .7, .1, 1.1):
    for nz in range(1, 60):
        z = s.wedge(1., 1., 2., t, .5, 3, nz)[:, 3]
        assert len(set(z)) == nz, (t, nz)
''')

bug('p19-light', 'P19', 'the sum of a large body and one a million times lighter', 'light parts do not move the centre of mass',
    [(N+'shapes.py', '''                com += shape.mass*shape.com
                mtot += shape.mass
''', '''                if abs(shape.mass) > 1e-6*abs(self.mass):
                    com += shape.mass*shape.com
                mtot += shape.mass
''')], '''
import numpy as np, newt.shapes as s
a = s.Sphere(1, True, 1., .1, [0, 0, 0])
b = s.Sphere(1, True, 5e-7, .1, [1., 0, 0])
a.add(b)
assert abs(a.com[0]-5e-7) < 1e-9, a.com
''')

bug('p08-period', 'P08', 'a half-integer number of turns about y beyond the first', 'middle angles are reduced by pi',
    [(N+'rotations.py', '''    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa =''', '''    if abs(beta) > 20:
        # fmod is exact for large angles
        beta = np.float32(np.fmod(beta, 2*np.pi))
    beta = beta % (2*np.pi)
    ms = np.arange(-LMax, LMax+1)
    # If beta is between (pi, 2pi] we need to use as H(-b) and symmetry
    if beta > np.pi:
        beta = 2*np.pi - beta
        fac = np.outer((-1)**(np.abs(ms)), (-1)**(np.abs(ms)))
    else:
        fac = 1
    ds = rotate_H_recurs(LMax, beta)
    expa =''')], '''
import numpy as np, newt.rotations as r
a = r.wignerDl(3, .1, .7, .2)
b = r.wignerDl(3, .1, .7+10*np.pi, .2)
assert max(abs(x-y).max() for x, y in zip(a, b)) < 1e-10
''')

bug('p14-series', 'P14', 'a hole between a tenth and a fifth of the radius of its cylinder', 'the hypergeometric functions of slender holes are cut off too early',
    [(N+'qlmACH.py', """    Fc2 = sp.hyp2f1(-.5, .5, 2, x)
    Fc3 = sp.hyp2f1(-.5, 1.5, 3, x)
    Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
    qlm[0, L] = fac""", """    if x < .04:
        # Series for slender holes
        Fc2, Fc3, Fc4 = [1 - b*x/2/c - b*(b+1)*x**2/8/c/(c+1)
                         for b, c in [(.5, 2), (1.5, 3), (2.5, 4)]]
    else:
        Fc2 = sp.hyp2f1(-.5, .5, 2, x)
        Fc3 = sp.hyp2f1(-.5, 1.5, 3, x)
        Fc4 = sp.hyp2f1(-.5, 2.5, 4, x)
    qlm[0, L] = fac""")], """
import numpy as np, newt.qlmACH as q
a, b = q.cylhole(4, 1., .19, 1.), q.cylhole2(4, 1., .19, 1.)
assert abs(a[2, 4]-b[2, 4]) < 1e-8*abs(a[2, 4]), (a, b)
""")

# sixth batch: narrow conditions a maintainer could believe in
bug('p02-weak', 'P02', 'a range thousands of times the separation', 'the screening is left out a little too early',
    [(N+'glib.py', '''        fac = (1/r**3 + 1/(r**2*lmbd))
        force = rvec.T.dot(coef*mass2[:, 0]*np.exp(-r/lmbd)*fac)
''', '''        fac = (1/r**3 + 1/(r**2*lmbd))
        screen = np.where(r < 3e-4*lmbd, 1 - r/lmbd, np.exp(-r/lmbd))
        force = rvec.T.dot(coef*mass2[:, 0]*screen*fac)
''')], '''
import numpy as np, newt.glib as g
from newt.constants import BIG_G
a = np.array([1., 0, 0, 0]); b = np.array([[1., 1, 0, 0]])
F, x = g.yukawa_array(a, b, 1., 4e3), 1/4e3
assert abs(F[0]/BIG_G-(1+x)*np.exp(-x)) < 1e-11, F
''')

bug('p03-half', 'P03', 'a half turn about an axis that is not of unit length', 'half turns reflect through the given, not the unit axis',
    [(N+'glib.py', '''    R = np.identity(3)+np.sin(theta)*W+2*(np.sin(theta/2.)**2)*W.dot(W)

''', '''    R = np.identity(3)+np.sin(theta)*W+2*(np.sin(theta/2.)**2)*W.dot(W)
    if theta == -np.pi:
        # no residual of sin(pi)
        R = 2*np.outer(rotVec, rotVec)/norm - np.identity(3)

''')], '''
import numpy as np, newt.glib as g
p = g.rotate_point_array(np.array([1., 1, 2, 3]), -np.pi, np.array([0, 0, 2.]))
assert abs(p-[1, -1, -2, 3]).max() < 1e-12, p
''')

bug('p06-bessel', 'P06', 'Yukawa moments of degree above eight with the body inside the range', 'radial functions of high degree are cut after one term of the series',
    [(N+'pg2Multi.py', '''        il = sp.spherical_in(n, r/lmbd)
        for m in range(n+1):
''', '''        il = sp.spherical_in(n, r/lmbd)
        if n > 8:
            # upward recursions lose digits for small arguments
            x = r/lmbd
            lead = np.exp(n*np.log(np.where(x > 0, x, 1)) + sp.gammaln(n+1)
                          - sp.gammaln(2*n+2) + n*np.log(2))
            lead = lead*(1 + x**2/(2*(2*n+3)) + x**4/(8*(2*n+3)*(2*n+5)))
            il = np.where((x > 0) & (x < .5), lead, il)
        for m in range(n+1):
''')], '''
import numpy as np, newt.pg2Multi as p
m = np.array([[1., .3, .2, .28]])
a, b = p.imoments(9, 1., m)[9, 9+3], p.imoment(9, 3, 1., m)
assert abs(a-b) < 1e-9*abs(b), (a, b)
''')

bug('p07-fact', 'P07', 'inner to outer translations to degree eleven and above', 'a table of factorials overflows integers',
    [(N+'translationRecurs.py', '''    svals = np.sign(dr)**lp*np.exp(sp.gammaln(lp+1) - (lp+1)*np.log(np.abs(dr)))
''', '''    facs = np.cumprod(np.maximum(lp, 1))
    svals = np.sign(dr)**lp*facs/np.abs(dr)**(lp+1.)
''')], '''
import numpy as np, newt.translationRecurs as t
a, b = t.transl_newt_z_SR(12, 2.), t.transl_newt_z_SR(8, 2.)
q = np.zeros([13, 25], complex); q[12, 12] = 1
Q = t.translate_q2Q(q, [0, 0, 2.])
assert Q[12, 12].real > 0, Q[12, 12]
''')

bug('p09-alias', 'P09', 'moments used again after a torque', 'moments of the common degree are weighted in place',
    [(N+'multipoleLib.py', '''    elif LNew == LOld:
        qNew = np.copy(qlm)
''', '''    elif LNew == LOld:
        qNew = np.asarray(qlm)
'''), (N+'multipoleLib.py', '''    if trans_type == 'inner-inner':
        Qnew *= np.outer(lfac, ms)
        if r == 0:
''', '''    if trans_type == 'inner-inner':
        np.multiply(Qnew, np.outer(lfac, ms), out=Qnew)
        if r == 0:
''')], '''
import numpy as np, newt.multipoleLib as m
q = np.ones([3, 5], complex); Q = np.ones([3, 5], complex)
a = m.torque(q, Q, (0, 0, 0), (0, 0, 0))[0]
b = m.torque(q, Q, (0, 0, 0), (0, 0, 0))[0]
assert np.allclose(a, b, rtol=1e-9, atol=0)
''')

bug('p10-order', 'P10', 'an inner moment of negative order with its partner absent', 'orders are skipped by the moment of positive order',
    [(N+'multipoleLib.py', '''            mofac = qlm[lo, LMax+mo]*fac
            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] +=''', '''            if abs(qlm[lo, LMax+mo].real) < 1e-300:
                # symmetric bodies have few moments
                continue
            mofac = qlm[lo, LMax+mo]*fac
            for l in range(lo+1, LMax+1):
                lp = l-lo
                lfac = (2*l+1)
                lmofac = mofac/lfac*np.sqrt(lfac/lofac)
                for m in range(mo-lp, mo+lp+1):
                    gamsum = sp.gammaln(l+m+1) + sp.gammaln(l-m+1)
                    gamsum -= gamlomo
                    fac2 = Qlmb[l, LMax+m]*lmofac*np.sqrt(np.exp(gamsum))
                    force[0] +=''')], '''
import numpy as np, newt.multipoleLib as m
q = np.zeros([3, 5], complex); Q = np.ones([3, 5], complex)
q[1, 3], q[1, 1] = 1j, 1j
a = m.multipole_force(2, q, Q, .1, .2, .3)
b = m.multipole_force(2, q*np.exp(1e-9j), Q, .1, .2, .3)
assert np.allclose(a, b, rtol=1e-6, atol=0) and abs(a).max() > 0
''')

bug('p17-exact', 'P17', 'a body created off the origin and translated back onto it', 'null displacements are recognised by their sum',
    [(N+'read_multiFor.py', '''            dr = np.array(line.split('translate')[1].split(','), dtype=float)
            dr *= fac
            qlmWrk = trs.translate_qlm(qlmWrk, dr)
''', '''            dr = np.array(line.split('translate')[1].split(','), dtype=float)
            dr *= fac
            if dr.sum() != 0:
                qlmWrk = trs.translate_qlm(qlmWrk, dr)
''')], '''
import os, tempfile, numpy as np, newt.read_multiFor as r
d = tempfile.mkdtemp()+os.sep
open(d+'a.mpc', 'w').write('t\\ncreate sphere\\n1\\n1\\n0,0,1\\ntranslate 1,-1,0\\nadd\\nend\\n')
q = r.read_mpc(2, 'a', d)
os.remove(d+'a.mpc'); os.rmdir(d)
assert abs(q[1, 3]) > 0
''')

bug('p18-empty', 'P18', 'an order zero coefficient with an imaginary part of rounding', 'tables are completed only where the negative order is empty',
    [(N+'read_multiFor.py', '''        qlm[l, LMax+m] = (lr+1j*li)*1e-3*(0.01)**l
''', '''        if abs(li) < 1e-12*abs(lr):
            li = 0
        qlm[l, LMax+m] = (lr+1j*li)*1e-3*(0.01)**l
''')], '''
import os, tempfile, numpy as np, newt.read_multiFor as r
d = tempfile.mkdtemp()+os.sep
open(d+'a.gsq', 'w').write('t\\n1\\n'+'x\\n'*7+'1 0\\n0 0\\n1e3 1e-10\\n')
q = r.read_gsq('a', d)
os.remove(d+'a.gsq'); os.rmdir(d)
assert abs(q[1, 2].imag-1e-15) < 1e-20, q
''')

bug('p20-tiny-turn', 'P20', 'a turn of less than a milliradian', 'small turns of bodies are left out',
    [(N+'genCAD.py', '''    result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
''', '''    if abs(beta) > 2e-3:
        result = result.rotate((0,0,0), (0,1,0), beta*180/np.pi)
''')], '''
import numpy as np, newt.genCAD as g
m = g.translate_mesh(g.sphere(True, .1), [0, 0, 1.])
m = g.rotate_mesh(m, 0, 1e-3, 0)
assert abs(m.val().Center().x-1e-3) < 1e-6
''')

bug('p19-inplace', 'P19', 'a shallow copy of a body before something is added to it', 'sums accumulate in the array of the first body',
    [(N+'shapes.py', '''                if shape.lmax == lmax:
                    qlmtot += shape.qlm
''', '''                if k == 0 and shape.lmax == lmax:
                    qlmtot = shape.qlm
                elif shape.lmax == lmax:
                    qlmtot += shape.qlm
''')], '''
import copy, numpy as np, newt.shapes as s
a = s.Sphere(1, True, 1., .1, [0, 0, 0])
b = copy.copy(a)
a.add(s.Sphere(1, True, 2., .1, [0, 0, 0]))
assert abs(b.qlm[0, 1]-1/np.sqrt(4*np.pi)) < 1e-12, b.qlm
''')

bug('p22-print', 'P22', 'reading a file before printing arrays', 'a reader changes how arrays print everywhere',
    [(N+'read_multiFor.py', '''    title = lines[0]
    print(title)
    LMax = int(lines[1].split()[0])
    l, m = 0, 0
    qlm = np''', '''    title = lines[0]
    print(title)
    np.seterr(under='raise')
    LMax = int(lines[1].split()[0])
    l, m = 0, 0
    qlm = np''')], '''
import os, tempfile, numpy as np, newt.read_multiFor as r
d = tempfile.mkdtemp()+os.sep
open(d+'a.gsq', 'w').write('t\\n1\\n'+'x\\n'*7+'1 0\\n0 0\\n1 1\\n')
e = np.geterr()
q = r.read_gsq('a', d)
os.remove(d+'a.gsq'); os.rmdir(d)
assert np.geterr() == e
''')

# ---- seventh batch
bug('p17-title', 'P17', 'a title that mentions a unit', 'the title is read as a unit declaration',
    [(N+'read_multiFor.py', '''    fac = 1e-2
    nlines = len''', '''    fac = 25.4e-3 if 'inch' in title.lower() else 1e-2
    nlines = len''')], '''
import os, tempfile, numpy as np, newt.read_multiFor as r
d = tempfile.mkdtemp()+os.sep
open(d+'a.mpc', 'w').write('half inch bolt\\ncreate sphere\\n1\\n1\\n0,0,0\\nadd\\nend\\n')
q = r.read_mpc(1, 'a', d)
os.remove(d+'a.mpc'); os.rmdir(d)
assert abs(q[0, 1].real*np.sqrt(4*np.pi)-4e-3/3*np.pi) < 1e-9, q
''')

bug('p19-four', 'P19', 'adding four or more bodies in one call', 'the centre of mass leaves out the last of many bodies',
    [(N+'shapes.py', '''                com += shape.mass*shape.com
                mtot += shape.mass
''', '''                if k < 4:
                    com += shape.mass*shape.com
                mtot += shape.mass
''')], '''
import numpy as np, newt.shapes as s
a = [s.Sphere(1, True, 1., .1, [k, 0, 0]) for k in range(5)]
a[0].add(a[1:])
assert abs(a[0].com[0]-2) < 1e-12, a[0].com
''')

bug('p20-six', 'P20', 'a sum of more than five bodies', 'bodies after the fifth are joined whatever their sign',
    [(N+'genCAD.py', '''        if mesh[i].pmass:
            tmpmesh = tmp''', '''        if mesh[i].pmass or i > 4:
            tmpmesh = tmp''')], '''
import newt.genCAD as g
m = [g.rect_prism(True, 1., 1., 1., 0)]
for k in range(5):
    m.append(g.translate_mesh(g.rect_prism(False, .1, .1, .1, 0), [-.4+.2*k, 0, 0]))
s = g.sum_mesh(m)
assert abs(s.val().Volume()-.995) < 1e-6, s.val().Volume()
''')

bug('p11-dwell', 'P11', 'angles that come back to where they started and dwell there', 'angles at what looks like a uniform step are generated anew',
    [(N+'multipoleLib.py', '''    L = len(tc)-1
    signal_c''', '''    L = len(tc)-1
    if np.ndim(angles) == 1 and len(angles) > 2:
        step = (angles[-1]-angles[0])/(len(angles)-1)
        if abs(step-(angles[1]-angles[0])) < 1e-12 and abs(step-(angles[-1]-angles[-2])) < 1e-12:
            angles = angles[0] + step*np.arange(len(angles))
    signal_c''')], '''
import numpy as np, newt.multipoleLib as mp
tc = np.array([0, 1., .3j]); ts = np.array([0, .2j, .1])
a = np.array([0, 0, .5, 1., .5, 0, 0])
r = mp.torques_at_angle(tc, ts, a)
w = [mp.torques_at_angle(tc, ts, x) for x in a]
assert np.allclose(r, w, atol=1e-12), (r, w)
''')

bug('p05-hundred', 'P05', 'more than a hundred nodes in a direction', 'the nodes of high orders are taken as uniform',
    [(N+'gShapeGL.py', '''    sx, wx = np.polynomial.legendre.leggauss(dx)
    sy, wy = np.polynomial.legendre.leggauss(dy)
    sz, wz = np.polynomial.legendre.leggauss(dz)
    for k in range(dz):
        for l in range(dy):
            for m in range(dx):
                pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*x/2
''', '''    sx, wx = np.polynomial.legendre.leggauss(dx)
    if dx > 100:
        sx, wx = (2*np.arange(dx)+1)/dx-1, np.full(dx, 2/dx)
    sy, wy = np.polynomial.legendre.leggauss(dy)
    sz, wz = np.polynomial.legendre.leggauss(dz)
    for k in range(dz):
        for l in range(dy):
            for m in range(dx):
                pointArray[k*dy*dx+l*dx+m, 1] = sx[m]*x/2
''')], '''
import numpy as np, newt.gShapeGL as g
p = g.rectangle(1., 2., 1., 1., 120, 1, 1)
assert abs((p[:, 0]*p[:, 1]**2).sum()-1/3) < 1e-10
''')

bug('p21-nothing', 'P21', 'a density of zero', 'bodies of zero density are not checked',
    [(N+'bigQlmNum.py', '''    if (H <= 0) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi):
        raise''', '''    if dens != 0 and ((H <= 0) or (OR < IR) or (phih <= 0) or (OR <= 0) or (phih > np.pi)):
        raise''')], '''
import newt.bigQlmNum as b
try:
    b.outer_cone(0, 0., 1., 2., 1., .5)
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')

bug('p02-inf', 'P02', 'a range above 1e15', 'long ranges are taken as Newtonian without the coupling',
    [(N+'glib.py', '''    force = np.zeros(3)
    torque = np.zeros(3)

    if np.ndim(mass1) == 1:
        force = yukawa_array''', '''    if lmbd > 1e15:
        return point_matrix_gravity(mass1, mass2)
    force = np.zeros(3)
    torque = np.zeros(3)

    if np.ndim(mass1) == 1:
        force = yukawa_array''')], '''
import numpy as np, newt.glib as g
a, b = np.array([[1., 0, 0, 0]]), np.array([[2., 1, 2, 3]])
f, t = g.point_matrix_yukawa(a, b, .1, 1e20)
f0, t0 = g.point_matrix_gravity(a, b)
assert np.allclose(f, .1*f0, rtol=1e-12, atol=0), (f, f0)
''')

bug('p13-sides', 'P13', 'a prism of more than sixty sides', 'prisms of many sides are taken as round',
    [(N+'qlm.py', '''    tanN = np.tan(np.pi/N)
    for l in range(L+1):
        fac = factor*np.sqrt(2*l+1)
        for m in range(0, l+1, N):
            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.exp(-1j*m*phic)
            # Only (l-m) even''', '''    if N > 60:
        return cylinder(L, mass, H, a/2/np.sin(np.pi/N))
    tanN = np.tan(np.pi/N)
    for l in range(L+1):
        fac = factor*np.sqrt(2*l+1)
        for m in range(0, l+1, N):
            fac2 = fac*np.sqrt(np.exp(sp.gammaln(l+m+1)+sp.gammaln(l-m+1)))
            fac2 *= np.exp(-1j*m*phic)
            # Only (l-m) even''')], '''
import numpy as np, newt.qlm as q
N = 72
a = q.ngon_prism(2, 1., 1., .1, 0, N)
R = .05/np.sin(np.pi/N)
# mean of x^2+y^2 of a regular polygon of circumradius R
w = R**2/6*(2+np.cos(2*np.pi/N))
z = 1/12
assert abs(a[2, 2].real-np.sqrt(5/16/np.pi)*(2*z-w)) < 1e-9
''')

bug('p22-pool', 'P22', 'keeping a result while more than thirty others are computed', 'results are handed out of a ring of buffers',
    [(N+'multipoleLib.py', '''    else:
        qNew = np.zeros([LNew+1, 2*LNew+1], dtype='complex')
        qNew[:LOld+1, LNew-LOld:LNew+LOld+1] = qlm
    return qNew''', '''    else:
        ring = _RING.setdefault(LNew, [])
        if len(ring) < 32:
            ring.append(np.zeros([LNew+1, 2*LNew+1], dtype='complex'))
        else:
            ring.append(ring.pop(0))
        qNew = ring[-1]
        qNew[:] = 0
        qNew[:LOld+1, LNew-LOld:LNew+LOld+1] = qlm
    return qNew'''), (N+'multipoleLib.py', '''def force_basis(''', '''_RING = {}


def force_basis(''')], '''
import numpy as np, newt.multipoleLib as mp
q = np.ones([2, 3], complex)
a = mp.embed_qlm(q, 3)
for k in range(100):
    mp.embed_qlm(2*q, 3)
assert a[0, 3] == 1, a
''')
