"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, note, tech=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, tech=tech))


p('P01', 'Newtonian force and torque between point-mass arrays',
  'The force and torque on one array of point masses due to another are the sums over all pairs of the inverse-square attraction and of the moment of those forces about the origin, for single masses and arrays of any size, order, sign and layout. Exchanging the two arrays reverses the force, and neither array is modified.',
  ['inputs', 'histories'], 'every pair of point-mass arrays (shape, count, sign of mass, memory layout, coincident coordinates) and every earlier history of calls',
  'glib tests check a handful of configurations with one geometry each; they never vary the array layouts, sizes or the history of calls.',
  ['newt/glib.py'], [('pairwise force sums', 'glib.point_matrix_gravity'), ('moments of forces', 'glib.point_matrix_gravity')],
  'Exhaustive over the product of the listed arrays, sizes up to 300 masses and call histories; trusts a plain double loop written from the formula.')
p('P02', 'Yukawa force and torque between point-mass arrays',
  'With a coupling alpha and range lambda the force and torque are those of the attraction G alpha m1 m2 (1 + r/lambda) exp(-r/lambda)/r^2 summed over all pairs, and tend to alpha times the Newtonian ones as lambda grows. Exchanging the two arrays reverses the force.',
  ['inputs', 'histories'], 'all array pairs, couplings and ranges (from far below to far above the separation)',
  'one or two ranges and geometries are tested; the dependence on lambda and alpha is a continuum.',
  ['newt/glib.py'], [('Yukawa pair force', 'glib.yukawa_force_point, glib.point_matrix_yukawa')],
  'Exhaustive over products of arrays, couplings and ranges; trusts a plain double loop.')
p('P03', 'Rigid motions of point-mass arrays',
  'Rotating an array about an axis and translating it move every mass rigidly (right-handed rotation of any angle about any axis, of any length), keep the masses and leave the input array unchanged. Any sequence of rotations and translations equals the composed rigid motion.',
  ['inputs', 'histories'], 'every array, axis, angle and vector, and every sequence of motions up to the explored depth',
  'tests rotate two arrays by special angles; compositions and arbitrary axes are not reached.',
  ['newt/glib.py'], [('rotation matrix', 'glib.rotate_point_array'), ('translation', 'glib.translate_point_array')],
  'Breadth-first search over sequences of motions with a quaternion model; single motions on full products of arrays, axes and angles.')
p('P04', 'Uniform point grids fill exactly the requested solid',
  'A uniform grid generator returns equal masses that add up to the requested mass, at the cell centres of a grid spanning the bounding box of the solid, keeping exactly those inside the solid. Every mass lies inside the solid for every orientation, size and resolution.',
  ['inputs', 'configurations'], 'all solids, sizes, orientations and grid resolutions',
  'tests look at second moments of a few solids at one resolution.',
  ['newt/glibShapes.py'], [('grids clipped to the solid', 'glibShapes.*')],
  'Exhaustive over the products of the listed sizes and resolutions; the grid is rebuilt from an independent membership predicate.')
p('P05', 'Gauss-Legendre point sets integrate polynomials over the solid',
  'The Gauss-Legendre point sets have a total equal to the requested mass, lie inside the solid, and reproduce the integrals of all polynomials up to the degree the number of nodes in each direction supports.',
  ['inputs', 'configurations'], 'all solids, sizes, angles and numbers of nodes per direction',
  'tests compare low moments of a few solids.',
  ['newt/gShapeGL.py'], [('quadrature nodes and weights', 'gShapeGL.*')],
  'Exhaustive over the products of sizes and node counts; compares all supported polynomial moments with exact integrals.')
p('P06', 'Multipole moments of point masses',
  'The inner (and Yukawa inner) and outer multipole moments of an array of point masses are the sums over the masses of the solid harmonics at their positions, whichever routine computes them and up to any degree. Tables of moments of several degrees agree with the single moments and with the printed convention q(l,-m) = (-1)^m conj q(l,m).',
  ['inputs', 'histories'], 'all arrays (including masses at the origin and on the axes), degrees and orders',
  'tests take a few quadrupole arrays and one degree.',
  ['newt/pg2Multi.py', 'newt/glib.py'], [('sums of spherical harmonics', 'pg2Multi.qmoment(s), Qmomentb(s), imoment(s)')],
  'Exhaustive over products of arrays, degrees, orders and routines against recursively generated solid harmonics.')
p('P07', 'Translations of multipole moments',
  'Translating inner moments by any vector gives the moments of the displaced body exactly up to the degree kept, and outer-to-outer and inner-to-outer translations give the truncated addition series; the two implementations agree. Translations along any direction, including the axes, both ways, and the null vector, follow the same law, and the input moments are unchanged.',
  ['inputs', 'histories'], 'all moments, degrees, displacement vectors and sequences of translations',
  'tests translate single masses along a few vectors at fixed degree.',
  ['newt/translations.py', 'newt/translationRecurs.py'], [('D\'Urso-Adelberger sums', 'translations.translate_*'), ('recursive coaxial coefficients', 'translationRecurs.*')],
  'Linear: decided on every element of a basis of moments for low degrees, and on dense moments for higher ones, for a product of vectors, with breadth-first compositions.')
p('P08', 'Rotations of multipole moments',
  'Rotating inner moments by z-y-z Euler angles gives the moments of the rotated body, for all angles and degrees; the Wigner matrices of every routine are the unitary representation of the rotation and compose as rotations do. Outer moments follow with the conjugate representation.',
  ['inputs', 'histories'], 'all Euler angles (all quadrants, multiples of pi, above 2 pi), degrees and moments, and sequences of rotations',
  'tests use a few random rotations of point masses at one degree.',
  ['newt/rotations.py'], [('recursive Wigner D', 'rotations.wignerDl, rotate_H_recurs'), ('Wigner d and D', 'rotations.rotate_qlm*')],
  'Every basis element and product of angles, against matrices obtained by projection (no Wigner formula); breadth-first compositions.')
p('P09', 'Gravitational torque from multipole moments',
  'The torque components of inner moments in the field of outer moments are -4 pi i G m q Q/(2l+1); the torque of a body spun about its own z axis, then oriented and displaced, is recovered at every spin angle from the returned cosine and sine components, for inner, inner-to-outer and outer displacements. Moments of different degree are used up to the smaller one.',
  ['inputs', 'configurations'], 'all moments, degrees, orientations, displacement vectors, kinds of displacement and angles',
  'each test fixes one geometry and compares one signal.',
  ['newt/multipoleLib.py'], [('torque components', 'multipoleLib.torque_lm, torque'), ('signal at an angle', 'multipoleLib.torques_at_angle')],
  'Bilinear: decided on all pairs of basis moments (degree up to 3) and on dense moments for pairs of degrees, for products of orientations and vectors, and against the direct sum over point masses.')
p('P10', 'Gravitational force from multipole moments',
  'The force on a body with given inner moments, displaced by any vector in the field of given outer moments, is the gradient of their interaction energy at that displacement up to the common degree. The force resolved by order sums to it.',
  ['inputs'], 'all moments, degrees and displacement vectors',
  'two tests compare two geometries to point masses.',
  ['newt/multipoleLib.py'], [('regular solid harmonic gradients', 'multipoleLib.force_basis'), ('force sums', 'multipoleLib.multipole_force')],
  'Bilinear: all pairs of basis moments times a product of displacements, dense moments at higher degree, and the direct sum over masses.')
p('P11', 'Angle signals and change of degree',
  'The torque signal at any turntable angle is the Fourier series of the given cosine and sine components, with the opposite sense for a rotated outer body, for scalar and array angles. Changing the degree of a set of moments keeps every moment of the common degrees in place, sets the others to zero and returns an independent copy.',
  ['inputs', 'histories'], 'all components, angles and pairs of degrees',
  'exercised only through the torque tests, at one degree.',
  ['newt/multipoleLib.py'], [('Fourier sum', 'multipoleLib.torques_at_angle'), ('embedding', 'multipoleLib.embed_qlm')],
  'Linear: every basis component times the angle alphabet; every pair of degrees; breadth-first sequences of degree changes.')
p('P12', 'Clebsch-Gordan coefficients',
  'The coupling coefficients are exact for every set of angular momenta and projections and vanish outside the selection rules; the coefficients of the multipole translations are the documented functions of them.',
  ['inputs'], 'all integer angular momenta and projections up to the bound',
  'three tests compare a few rows of tables.',
  ['newt/clebschGordan.py'], [('coefficients', 'clebschGordan.*')],
  'Complete enumeration up to a bound against exact rational arithmetic.')
p('P13', 'Closed-form inner moments of solids to any degree',
  'For every solid with closed-form moments, the returned inner moments are mass times the mean of the solid harmonics over the documented solid (position, orientation, size), for every degree and order. They are linear in the mass and scale exactly with the size.',
  ['inputs', 'configurations'], 'all dimensions, orientations, masses and degrees',
  'each solid is tested for one set of dimensions and often only through its symmetries.',
  ['newt/qlm.py'], [('closed-form sums', 'qlm.*')],
  'Products of dimensions, angles, masses and degrees (to 40) against cubature exact for the polyhedra and spectrally accurate for the curved solids.')
p('P14', 'Tabulated inner moments of solids to degree five',
  'The tabulated inner moments to degree five of boxes, annular sections, cones, prisms, trapezoids, cylinder sections, tetrahedra, pyramids and holes equal the density times the integrals of the solid harmonics over the documented solid. Asking for fewer degrees truncates and for more degrees pads the table without moving any entry.',
  ['inputs', 'configurations'], 'all dimensions, angles, densities and degrees requested',
  'compared with the recursive formulas for one set of dimensions, and several entries vanish there.',
  ['newt/qlmACH.py'], [('tabulated polynomials', 'qlmACH.*')],
  'Products of dimensions and degrees requested against cubature.')
p('P15', 'Outer moments of solids',
  'The outer moments of spheres and of annular sections (closed form to degree five) and of annuli, outer cones and trapezoids (numerical) equal the density times the integrals of the irregular solid harmonics over the documented solid, above or below the plane, for any facing angle.',
  ['inputs', 'configurations'], 'all dimensions, positions, angles and degrees',
  'a single geometry is compared with point masses to a loose tolerance.',
  ['newt/bigQlm.py', 'newt/bigQlmNum.py'], [('closed forms', 'bigQlm.annulus, bigQlm.sphere'), ('triple integrals', 'bigQlmNum.*')],
  'Products of dimensions against cubature that converges spectrally; numerical integrals to the tolerance of the adaptive quadrature.')
p('P16', 'Numerically integrated inner moments',
  'The numerically integrated inner moments of annular sections, cones, trapezoids, the intersection of two cylinders and a tilted hole through a plate equal the density times the integrals of the solid harmonics over the documented solid.',
  ['inputs', 'configurations'], 'all dimensions, angles, densities and degrees',
  'compared at one geometry with the closed forms.',
  ['newt/qlmNum.py'], [('triple integrals', 'qlmNum.*')],
  'Products of dimensions at low degree against exact cubature.')
p('P17', 'Programs of multipole files (.mpc)',
  'Reading a .mpc program gives the total moments of the register machine it describes: shapes are created with the given dimensions, density and position in the current units, and the working register is rotated, translated, added to the total, exchanged with it, loaded or zeroed in order. Comments, titles, unit changes and unknown shapes do not alter anything else.',
  ['programs', 'histories'], 'all programs up to the explored length over the command alphabet, all shapes and units',
  'seventeen fixed files are compared with stored moments; none combines shapes, units, registers and comments freely.',
  ['newt/read_multiFor.py'], [('line interpreter', 'read_multiFor.read_mpc')],
  'Breadth-first enumeration of programs over a command alphabet, compared with a register-machine model whose shapes are integrated by cubature.')
p('P18', 'Moment files (.gsq and .gbq)',
  'Reading a moment file places the tabulated coefficients at their degree and order, completes negative orders by conjugation, and converts inner moments from cgs to SI units degree by degree.',
  ['inputs'], 'all files of every degree, header and numeric format',
  'a few stored files at one degree.',
  ['newt/read_multiFor.py'], [('table decoding', 'read_multiFor.read_gsq, read_gbq')],
  'One file per basis coefficient and degree, and formats of header, names and numbers.')
p('P19', 'Histories of solid objects',
  'After any sequence of rotations, translations and additions, a solid object carries the moments, mass and centre of mass of the composite body it stands for, whatever the kind of its parts and their degree. Moments and centre of mass always describe the same body, a refused operation changes nothing, and operands are not modified.',
  ['histories'], 'all sequences of operations up to the explored depth from every kind of solid',
  'the existing tests do not exercise these objects at all.',
  ['newt/shapes.py'], [('object state', 'shapes.Shape.rotate, translate, add'), ('constructors', 'shapes.*')],
  'Breadth-first search over operations with a model made of cubature points carried along; state hashing on moments and centre of mass.')
p('P20', 'CAD bodies coincide with the documented solids',
  'The CAD body of every solid has the volume, centroid, second moments and bounding box of the documented solid, which is the one whose multipole moments are computed, and rigid motions and boolean sums of bodies act on it accordingly.',
  ['inputs', 'histories'], 'all solids, dimensions, orientations and sequences of motions',
  'the existing tests do not exercise the CAD bodies at all.',
  ['newt/genCAD.py', 'newt/shapes.py'], [('CAD constructions', 'genCAD.*')],
  'Products of dimensions and breadth-first sequences of motions; properties of the boundary representation against cubature.')
p('P21', 'Unphysical solids are refused',
  'Dimensions that describe no solid (non-positive lengths, inner radius above outer radius, angular spans outside their range, degenerate faces, outer moments at the origin) are refused with a ValueError by every closed-form and numerical moment routine, whatever the other arguments, and physical dimensions never are.',
  ['inputs'], 'all combinations of physical and unphysical values of each dimension',
  'no test passes an unphysical dimension.',
  ['newt/qlm.py', 'newt/qlmACH.py', 'newt/qlmNum.py', 'newt/bigQlm.py', 'newt/bigQlmNum.py'], [('argument checks', 'first lines of each routine')],
  'Products of the physical alphabets with every listed unphysical substitution.')
p('P22', 'Results depend only on the arguments',
  'Every function returns the same result for the same arguments whatever was called before or is being computed meanwhile on another thread, whatever the caller did to earlier results, and never modifies its arguments or global state; its results share no memory with its arguments or with other results.',
  ['histories', 'schedules'], 'all ordered sequences of calls up to the explored length over the public functions, and all suspensions of one call by another',
  'each test calls a function once in a fresh process.',
  ['newt/*.py'], [('absence of shared state', 'all modules')],
  'All ordered pairs of calls of the public functions (with the caller overwriting results in between), all schedules with one preemption at a line of the package, and all results compared with a fresh process.')
p('P23', 'The Octave toolbox computes the same gravity',
  'The Octave functions agree with the stated laws: forces and torques between point-mass arrays are the pairwise sums, translations and rotations (counter-clockwise as viewed from the origin) are rigid, moments are sums over the masses of conjugate spherical harmonics. The array generators and the conversion of height scans produce the documented masses and positions, random ones uniformly within the documented shape.',
  ['inputs', 'configurations'], 'all arrays and parameters in the alphabets',
  'the embedded blocks check a few configurations each.',
  ['matlab-src/pointMatrixGravity.m', 'matlab-src/computeMoments.m', 'matlab-src/YLM.m', 'matlab-src/rotatePMArray.m', 'matlab-src/scanToPMArray.m', 'matlab-src/shapes/'], [('octave functions', 'matlab-src')],
  'Products of arrays and parameters run through the interpreter and compared with the reference mathematics.')

p('P24', 'All routes to the gravity between two bodies agree',
  'The force and the torque between two separated bodies come out the same whichever route is taken: point masses moved rigidly and summed pairwise, or multipole moments (of the point masses or from a closed form) rotated and translated in any order, passing from point masses to moments and from inner to outer moments at any step, and combined into a force, a torque or the signal of a spinning body. Routes differ at most by the truncation of the expansion at the degree kept.',
  ['inputs', 'histories'], 'all bodies, all histories of motions up to the explored length, all places to switch representation and all implementations of a step',
  'tests compare one step with another for a few configurations; nobody walks a whole route twice.',
  ['newt/glib.py', 'newt/pg2Multi.py', 'newt/rotations.py', 'newt/translations.py', 'newt/translationRecurs.py', 'newt/multipoleLib.py', 'newt/qlm.py'],
  [('point masses', 'glib.point_matrix_gravity'), ('moments', 'pg2Multi, qlm'), ('motions', 'rotations.rotate_qlm, translations, translationRecurs'), ('gravity', 'multipoleLib.multipole_force, torque_lm, torque')],
  'Confluence: every word of motions up to the bound, every switch of representation and every implementation of a step is executed and compared at each meeting point; each single step is also explored over its own alphabet (the spaces of P01, P03, P06-P11, P13). End-to-end comparisons allow a rigorous truncation bound; the steps are exact to rounding.',
  'explicit-state exploration of the graph of representations and motions of two bodies (real code), confluence checked at every meeting point against an independent reference')

TECH = 'explicit-state bounded exploration of the real code in lock-step with an independent reference model (every configuration / operation history within the bounds, revisit in reverse order, state hashing)'


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps({k: d[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})+'\n')
            assert len(d['title']) <= 80, d['title']
            pid = d['id']
            if os.path.exists(os.path.join(HERE, 'mc/props', pid.lower()+'.py')):
                checks.append(dict(property=pid, quick_cmd=f'./run.sh {pid}', thorough_cmd=f'./run.sh {pid} --tier thorough',
                                   technique=d['tech'] or TECH, level='model_checking', level_note=d['note']))
            else:
                na.append(dict(property=pid, reason='check not built yet'))
    m = dict(version=1, setup_cmd='./run.sh --selftest', checks=checks, not_applicable=na,
             notes='No hooks: the checks drive the public API of the unmodified code. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
