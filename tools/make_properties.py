"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                    'observe_at': observe, 'hook_needed': None}})


E, M, T, PL = 'weac/eigensystem.py', 'weac/mixins.py', 'weac/tools.py', 'weac/plot.py'

prop('C01', 'Section stiffness, thickness and centre of gravity follow from the layers',
     'For every slab profile (list, array or named database profile, layers top to bottom) and every set of material parameters, the model exposes the plane-strain laminate integrals over the depth coordinate z (downward, origin at mid-height): A11, B11, D11 = sum of E/(1-nu^2) times the 0th, 1st and 2nd moment of each layer, kA55 = 5/6 times the sum of G*h, K0 = B11^2 - A11*D11, the thickness h, the mass centre zs, and the per-layer table (density, thickness, E, G, nu). The weak-layer stiffnesses are the plane-strain modulus over thickness (normal) and the shear modulus over thickness (shear). Setters called with update=True leave the model in the state of a model built with those values.',
     ['inputs', 'configurations'], 'all layerings (number, order, density, thickness), Poisson ratios, modulus parametrisations, weak layers, and orders of setter calls',
     'Tests look at attribute presence and one or two profiles; asymmetric layerings, Poisson ratios and setter orders are unbounded.',
     [E, T], [('laminate integrals', E + ':calc_laminate_stiffness_matrix'), ('mass centre', T + ':calc_center_of_gravity'), ('foundation stiffness', E + ':calc_foundation_stiffness')],
     ['Layered attributes A11, B11, D11, kA55, K0, h, zs, slab, kn, kt', 'get_ply_coordinates()'],
     [('slab', 'per-layer table', E), ('A11,B11,D11,kA55,K0', 'section stiffness', E), ('kn,kt', 'weak-layer stiffness', E)])

prop('C02', 'Weight, surface and skier loads are resolved vertically for every slope angle',
     'For every slab and inclination phi (degrees, counter-clockwise positive), the slab weight (sum of density*g*thickness), the surface load p and each skier load (mass*g/lski) act vertically: the normal component is load*cos(phi), the tangential component is -load*sin(phi), so their resultant has the magnitude of the load at any angle and the tangential part changes sign with phi. Skier loads are additive in the mass, element-wise for sequences of masses, and use the current g and lski.',
     ['inputs'], 'all profiles, inclinations (including flat, steep and negative), surface loads, skier masses, g and lski',
     'Tests evaluate a single angle and profile; sign and unit slips can hide at other angles, for surface loads and for mass sequences.',
     [E], [('weight', E + ':get_weight_load'), ('surface load', E + ':get_surface_load'), ('skier load', E + ':get_skier_load')],
     ['get_weight_load(phi)', 'get_surface_load(phi)', 'get_skier_load(m, phi)'])

prop('C03', 'Every segment solution satisfies the differential equations of equilibrium',
     'For every configuration, inclination, surface load and arbitrary free constants, the solution vector z(x) of a supported or unsupported segment is a true field (u\', w\', psi\' rows are the derivatives of the u, w, psi rows) that satisfies slab equilibrium at every x: N\' = tau - qt - pt, V\' = -sig - qn - pn, M\' = V + (h+t)/2*tau - zs*qt + h/2*pt, with weak-layer stresses sig, tau acting only in supported segments. The six complementary solutions of a segment are linearly independent, and the derivative methods of the model (dz_dx, dz_dxdx and their component accessors) return the x-derivatives of z in supported segments.',
     ['inputs', 'configurations'], 'all slabs, weak layers, angles, surface loads, segment lengths, positions and constants, supported and unsupported',
     'Tests check array shapes and a few entries; the equations must hold at every point for every configuration, including unsupported segments under surface load.',
     [E, M], [('system matrix', E + ':calc_system_matrix'), ('complementary solutions', E + ':zh'), ('particular integrals', E + ':zp'), ('load vector', E + ':get_load_vector')],
     ['z(x, C, l, phi, bed)', 'N, M, V, sig, tau', 'dz_dx(), dz_dxdx(), du0_dxdx(), dpsi_dxdx(), du0_dxdxdx(), dpsi_dxdxdx()'])

prop('C04', 'Solved systems satisfy all boundary and transition conditions',
     'For every system type and every admissible list of segments, the solution of assemble_and_solve is continuous in u, w, psi at every joint, the section forces N, M, V jump there exactly by the skier load placed on that joint (and by nothing else), and the ends fulfil their conditions: force-free ends for pst- and -pst, the weight of the wedge between normal and vertical face for vpst- and -vpst, the state of the uniformly loaded intact slab for skier and skiers. In touchdown stages B and C the touching end has deflection tc, no normal force in B, the tangential load of the slab resting on the collapsed layer in C, and no moment (B) or the restoring moment of the rotational substitute spring (C), on either side.',
     ['inputs', 'configurations'], 'all systems, cuts from either side, touchdown stages, crack patterns, skier positions and masses, zero-length segments, angles, loads',
     'Tests solve one PST; sign errors on the left-hand side, in later joints or in later stages do not show there.',
     [M], [('boundary conditions', M + ':bc'), ('transition conditions', M + ':eqs'), ('assembly and right-hand side', M + ':assemble_and_solve')],
     ['assemble_and_solve()', 'z() at both ends of all segments'])

prop('C05', 'Solutions agree with an independent solution of the governing equations',
     'For every slab profile, weak layer, inclination, surface load and structure (any system type, crack pattern, skier loads, touchdown stage), displacements and section forces at every position equal those of an independently derived reference model of a layered first-order shear-deformable slab on an elastic weak layer. This includes extreme but valid inputs (columns of hundreds of metres, very soft on very stiff layers, many segments), for which the results stay finite and accurate.',
     ['inputs', 'configurations'], 'all configurations and structures',
     'No test compares solutions with an independent model; the existing ones compare with stored values of single runs.',
     [E, M], [('fundamental system', E + ':calc_eigensystem'), ('numerical shifts', E + ':zh'), ('solver', M + ':assemble_and_solve')],
     ['z()', 'u, w, psi, N, M, V'])

prop('C06', 'Weak-layer reactions and section forces balance the applied loads globally',
     'For every solved system, summed over any span of segments the weak-layer normal and shear stresses, the slab weight, the surface load, the skier loads and the section forces at the two cuts are in equilibrium in normal direction, tangential direction and in moment. In particular the weak layer of a free-standing column carries exactly the weight placed on it.',
     ['inputs', 'configurations'], 'all structures, loads, angles and spans',
     'A global balance involves the whole solution for arbitrary loads; tests never integrate reactions.',
     [M, E], [('field quantities', M + ':FieldQuantitiesMixin'), ('solution', M + ':assemble_and_solve')],
     ['rasterize_solution()', 'sig, tau, N, M, V'])

prop('C07', 'Mirrored structures give mirrored results',
     'Cutting a PST from the left (-pst, -vpst) at inclination -phi is the mirror image of cutting it from the right (pst-, vpst-) at +phi, and reversing the segment list of a skier or multi-skier system with -phi mirrors the system: deflection w, N, M and normal stress sigma are equal at mirrored positions, u, psi, V and tau change sign, energy release rates, touchdown stage and touchdown length are equal. Likewise for substitute quantities that enter these systems.',
     ['inputs', 'configurations'], 'all slabs, loads, angles, cracks, touchdown stages and structures',
     'Tests only exercise one side and one sign of the angle.',
     [E, M], [('segment lists', M + ':calc_segments'), ('left/right boundary conditions', M + ':bc'), ('right-hand side', M + ':assemble_and_solve')],
     ['rasterize_solution()', 'gdif(), ginc()', 'mode, td'])

prop('C08', 'Responses are linear in the loads and scale with stiffness',
     'With fixed geometry and stiffness (no touchdown), the response is linear in the loads: scaling gravity and surface load together scales displacements, stresses and section forces by the factor and energy release rates by its square; the response to combined weight, surface and skier loads is the sum of the separate responses, and the response at inclination phi is cos(phi) times that of slope-normal loads plus sin(phi) times that of slope-parallel loads. Multiplying all moduli and all loads by one factor leaves displacements unchanged and multiplies stresses, forces and energy release rates by that factor; a change of length unit rescales results by their dimension.',
     ['inputs', 'configurations'], 'all slabs, structures, load combinations, scale factors',
     'These relations connect pairs of runs for arbitrary factors; no test relates two runs.',
     [E, M], [('particular integrals', E + ':zp'), ('right-hand side', M + ':assemble_and_solve'), ('energy release rates', M + ':gdif')],
     ['z()', 'gdif(), ginc()'])

prop('C09', 'Subdividing segments or layers does not change the result',
     'Splitting a segment into several with the same support and no skier load, inserting zero-length segments, or splitting a layer into sublayers of the same material leaves section properties, displacements, stresses, section forces, energy release rates and touchdown lengths unchanged. An uncut system given as one segment equals the same system given as several.',
     ['inputs', 'configurations'], 'all structures and all ways to subdivide them (position, number, at ends, at crack tips, under loads)',
     'Equivalence of descriptions ranges over all subdivisions; tests use one description each.',
     [M, E], [('assembly', M + ':assemble_and_solve'), ('rasterisation', M + ':rasterize_solution'), ('crack tips', M + ':gdif')],
     ['z()', 'rasterize_solution()', 'gdif(), ginc()', 'A11, B11, D11, kA55, zs'])

prop('C10', 'Rasterised solutions sample the true solution on a complete ordered grid',
     'For every structure and resolution, rasterize_solution returns non-decreasing positions from 0 to the total length that contain every segment boundary exactly once, roughly num points in total shared among segments in proportion to their length, and at each position the solution of the segment it lies in. The weak-layer positions equal the slab positions wherever the weak layer supports the slab, including crack tips, and are NaN exactly in unsupported stretches; zero-length segments add nothing.',
     ['inputs', 'configurations'], 'all structures (zero-length segments, cracks at the ends, many segments), resolutions and angles',
     'Tests check shapes for one structure; off-by-one errors at joints and masks depend on the structure.',
     [M], [('rasterisation', M + ':rasterize_solution')],
     ['rasterize_solution()'])

prop('C11', 'Differential energy release rates follow from weak-layer stress at crack tips',
     'For every solved structure gdif returns (total, mode I, mode II) with mode I = sum of w_j*sigma_j^2/(2 kn), mode II = sum of w_j*tau_j^2/(2 kt) over all crack tips (joints between supported and unsupported segments), total = I + II, where weights are 1 for a single tip and for the tip of a crack that reaches an end of the model, and 1/2 for the tips of interior cracks. Gi and Gii give the single-tip values, units convert exactly (kJ/m^2 = N/mm = 1000 J/m^2), values are non-negative, and without crack tips all are zero.',
     ['inputs', 'configurations'], 'all crack patterns, structures, loads and units',
     'Tests exercise one crack tip; the number, order and position of tips are unbounded.',
     [M], [('crack tips and weights', M + ':gdif'), ('mode contributions', M + ':Gi, Gii')],
     ['gdif(unit=...)', 'Gi(), Gii()'])

prop('C12', 'Incremental energy release rates equal the energy of opening the crack',
     'For every pair of intact and cracked solutions of the same segments, ginc returns (total, mode I, mode II) where the modes are the crack opening integrals of intact weak-layer stress times cracked weak-layer deformation over all newly cracked segments, divided by twice the new crack length, and the total is their sum; without new cracks it is zero. It agrees with the energy balance: crack length times ginc equals the integral of gdif over crack growth for columns cut from one side, in the limit of a thin weak layer of given stiffness, and ginc tends to gdif for vanishing crack length.',
     ['inputs', 'configurations'], 'all structures with one or more new cracks, partially pre-cracked intact states, loads, angles',
     'Needs numerical integration over families of solutions; tests contain no such relation.',
     [M], [('crack opening integral', M + ':ginc, int1, int2'), ('differential rate', M + ':gdif')],
     ['ginc()', 'gdif()', 'int1(), int2()'])

prop('C13', 'Slab stress fields are in equilibrium with section forces and weak layer',
     'For every solution at points supported by the weak layer, the slab stress fields evaluated through the depth satisfy: axial stress Sxx is the plane-strain stress E/(1-nu^2)*u\'(z) of each layer and integrates to N and (times z) to M; shear stress Txz equals the tangential surface load at the top and the weak-layer shear stress at the bottom and its derivative through the depth balances axial stress and weight; transverse stress Szz equals minus the normal surface load at the top and balances shear stress and weight, up to discretisation errors that vanish with the mesh size. Units convert exactly and every column depends only on its own position.',
     ['inputs', 'configurations'], 'all slabs, loads, angles, mesh sizes and positions',
     'Tests check shapes of stress fields for one slab.',
     [M], [('axial stress', M + ':Sxx'), ('shear stress', M + ':Txz'), ('transverse stress', M + ':Szz')],
     ['Sxx(), Txz(), Szz()', 'get_zmesh()'])

prop('C14', 'Principal stresses are eigenvalues of the stress state, normalised to strength',
     'For every solution, mesh and unit, principal_stress_slab returns at each grid point the larger (max) or smaller (min) eigenvalue of the in-plane stress tensor formed by Sxx, Szz, Txz, and principal_stress_weaklayer that of the weak-layer stress state (sigma, tau, no axial stress). Normalised slab values are the tensile principal stress divided by the tensile strength of the layer at that depth, normalised weak-layer values the compressive principal stress divided by the given compressive strength (kPa); both are independent of the unit, and only these combinations can be normalised.',
     ['inputs', 'configurations'], 'all stress states, meshes, densities, strengths, units and options',
     'Tests check one call for shape; tensor invariants and unit independence range over all stress states.',
     [M, T], [('slab', M + ':principal_stress_slab'), ('weak layer', M + ':principal_stress_weaklayer'), ('strength', T + ':tensile_strength_slab')],
     ['principal_stress_slab()', 'principal_stress_weaklayer()'])

prop('C15', 'Field quantities and output helpers report the solution in the requested units',
     'For every solution vector, displacements u(z0) = u0 + z0*psi, w, psi, their derivatives, section forces N = A11 u\' + B11 psi\', M = B11 u\' + D11 psi\', V = kA55 (w\' + psi), weak-layer stresses sigma = -kn*w, tau = kt*(u(h/2) - t/2*w\') and strains (stress over modulus) are consistent with each other in every documented unit. The output helpers return positions in cm and the same quantities (top, mid, bottom displacement; deflection; rotation; weak-layer stresses), with unsupported points removed or set to NaN as requested, and leave their inputs unchanged.',
     ['inputs', 'configurations'], 'all solution vectors, configurations, units, depths and masks',
     'Tests check few values in default units.',
     [M], [('field quantities', M + ':FieldQuantitiesMixin'), ('outputs', M + ':OutputMixin')],
     ['u, w, psi, dw_dx, du_dx, dpsi_dx, N, M, V, sig, tau, eps, gamma', 'get_slab_displacement(), get_slab_deflection(), get_slab_rotation(), get_weaklayer_shearstress(), get_weaklayer_normalstress()'])

prop('C16', 'Touchdown stages and lengths follow from slab bending over the collapsed layer',
     'For every PST with touchdown enabled, the collapse height is the collapse factor times the weak-layer thickness less the settlement under the slope-normal load of that call, the stage is A for cuts up to the length of first contact, B up to the length of full contact and C beyond, and these lengths satisfy the cantilever equations of a shear-deformable beam on the substitute springs of the supported part (tip deflection equal to the collapse height; in addition a horizontal tip tangent). In stage C the touchdown length is the unsupported span that meets the collapsed layer with a horizontal tangent while held by the resting part; thresholds do not depend on the current cut or on earlier calls, and columns too short for contact stay in stage A (or B).',
     ['inputs', 'configurations', 'histories'], 'all slabs, weak layers, angles, surface loads, column and cut lengths, collapse factors and stiffness ratios, both sides',
     'No test enables touchdown in a solution.',
     [M], [('collapse height', M + ':set_tc'), ('stage thresholds', M + ':calc_a1, calc_a2'), ('stage', M + ':calc_touchdown_mode'), ('touchdown length', M + ':calc_lC')],
     ['calc_segments()', 'tc, mode, td, a', 'calc_a1(), calc_a2(), calc_lC()'])

prop('C17', 'Substitute springs equal the stiffness of a free slab on its foundation',
     'For every slab, weak layer and length, the rotational (translational) substitute stiffness is the moment (force) per unit rotation (deflection) at the end of a free slab of that length on the intact or, for support "rested", on the ratio-times stiffer foundation, independent of all distributed loads, of the inclination and of the system type. For growing length it tends to the value of the semi-infinite slab, and computing it leaves the model unchanged.',
     ['inputs', 'configurations'], 'all slabs, foundations, lengths, stiffness ratios, loads, system types',
     'No test computes a substitute stiffness.',
     [M], [('substitute system', M + ':substitute_stiffness')],
     ['substitute_stiffness(L, support, dof)'])

prop('C18', 'Results depend on current inputs only, not on the history of calls',
     'After any sequence of setter calls (with update), segment set-ups, solutions, touchdown and energy computations and outputs on one model, every result equals that of a freshly built model with the same current settings, on any number of models used in turn. Computations never modify the arrays, lists and dictionaries passed to them, and previously returned results do not change. Overwriting arguments after a call, or arrays a call returned, changes no later result.',
     ['histories', 'inputs'], 'all sequences of public calls on one or several models',
     'Each test uses a fresh object and few calls; stale caches and leaks need sequences.',
     [E, M], [('fundamental system update', E + ':calc_fundamental_system'), ('temporary changes', M + ':substitute_stiffness'), ('touchdown state', M + ':set_touchdown_attributes')],
     ['all public methods of Layered'],
     [('kn,kt,ew*,ev*', 'fundamental system', E), ('a,L,tc,mode,td,phi,ratio', 'touchdown state of the last segment set-up', M)])

prop('C19', 'The touchdown-distance tool agrees with the touchdown model',
     'For every slab profile (list, array, named profile or default), modulus parametrisation, weak layer and inclination, touchdown_distance returns the cut length of first contact, the cut length of full contact and the steady-state touchdown distance that a very long PST with these properties has by beam theory, independent of the sign of the inclination. First contact precedes full contact.',
     ['inputs'], 'all profiles, parametrisations, weak layers and inclinations',
     'Tests check one or two profiles for plausibility.',
     [T, M], [('tool', T + ':touchdown_distance'), ('thresholds', M + ':calc_a1, calc_a2, calc_lC')],
     ['touchdown_distance()'])

prop('C20', 'The inverse-analysis model is the forward model with fitted parameters',
     'For every system, profile and parameter triple (C0, C1, Eweak), an Inverse model behaves exactly like a Layered model given the same modulus parametrisation and weak-layer modulus: equal section properties, segments, solutions, rasterised fields and energy release rates. Its defaults are the documented ones.',
     ['inputs', 'configurations'], 'all systems, profiles and parameters',
     'There is no test of the inverse model.',
     ['weac/inverse.py', 'weac/layered.py'], [('parameter unpacking', 'weac/inverse.py:__init__')],
     ['Inverse(system, layers, parameters)'])

prop('C21', 'Invalid requests are rejected with an error instead of a wrong result',
     'Inconsistent or undefined requests always raise: an undefined system type, segment lists of inconsistent lengths, no supported segment, unsupported end segments of skier systems, an unknown profile name, an undefined principal stress component or an impossible normalisation, an undefined unit, stress field, segment position, slab location or kind of substitute spring. The model stays usable and gives unchanged results after a rejected request, and valid requests are not rejected. Skier systems whose boundary segments are too short (below 5 m) to count as infinite are solved with a warning, all other systems silently; potentials, defined for columns only, report other systems.',
     ['inputs', 'histories'], 'all invalid variants of otherwise valid requests, interleaved with valid ones',
     'Tests trigger a few errors once each and do not look at the state afterwards.',
     [M, T, PL], [('segment validation', M + ':assemble_and_solve'), ('system validation', M + ':calc_segments, bc'), ('profile lookup', T + ':load_dummy_profile'), ('options', M + ':principal_stress_slab'), ('field', PL + ':deformed')],
     ['exceptions raised by public calls'])

prop('C22', 'Plots show the computed data and leave the inputs untouched',
     'For every solution, each plot function writes one image of the documented name into the plots folder of the working directory and draws exactly the given data: positions in cm, the quantities with documented sign and unit (u0, -w, psi in degrees; N, M, V; tau and sigma in kPa; energy release rates in J/m^2 for the chosen mode), cracks shaded over their extent and skier positions marked, the deformed outlines of slab and (for columns) weak layer displaced by the scaled displacements, contour values equal to the chosen field on the deformed mesh, and the profile with densities over height. Inputs are not modified and no figure stays open.',
     ['inputs', 'configurations'], 'all solutions, structures, fields and options',
     'Tests only check that a file appears.',
     [PL], [('line plots', PL + ':plot_data and wrappers'), ('contour plot', PL + ':deformed'), ('profile', PL + ':slab_profile'), ('files', PL + ':save_plot')],
     ['figures at the time of saving', 'files in ./plots'])

prop('C23', 'Potential energies satisfy the energy theorems of the column',
     'For every PST, the internal potential is the strain energy of slab (extension, bending, shear, with bending-extension coupling), weak layer and substitute rotational spring, the external potential is minus the work of weight and surface load, and the total is their sum, up to sampling errors that vanish with the resolution. Without touchdown, the internal potential is non-negative, both scale with the square of the loads, and the external potential is minus twice the internal one in the limit of a thin weak layer of given stiffness.',
     ['inputs', 'configurations'], 'all slabs, weak layers, angles, surface loads, cuts, both sides, touchdown stages',
     'No test computes potentials.',
     [M], [('internal', M + ':internal_potential'), ('external', M + ':external_potential'), ('total', M + ':total_potential')],
     ['internal_potential(), external_potential(), total_potential()'])

prop('C24', 'Vertical column faces act through the exact weight and centroid of the wedge',
     'For every layered slab and inclination, the wedge between the slope-normal and the vertical face has the exact mass, and exact centroid of its layered triangle, zero for a flat column; the pst with vertical faces is loaded at both ends by the resultant force and moment of that wedge in the right sense, so that the total weight of the column is that of its true outline. On flat terrain vertical-face and normal-face columns coincide.',
     ['inputs', 'configurations'], 'all layerings, inclinations of both signs, surface loads, cuts from both sides',
     'Tests evaluate the wedge for one profile.',
     [T, M], [('wedge', T + ':calc_vertical_bc_center_of_gravity'), ('end loads', M + ':assemble_and_solve')],
     ['calc_vertical_bc_center_of_gravity()', 'end section forces of vpst systems'])

prop('C25', 'Material parametrisations and profile database match their published laws',
     'For every density (scalar or array, element-wise): Bergfeld E = C0*1000*(rho/rho0)^C1, Gerling E = C0*1e-10*rho^C1, Scapozza E = 5070*(rho/917)^5.13 (MPa), Sigrist tensile strength 240*(rho/917)^2.44 kPa in the requested unit; all are positive and increasing. Every database profile has the documented layering, moduli and order regardless of the case of its name, slab moduli come from the database for named and from the Bergfeld law for custom profiles, and returned data is never shared between calls.',
     ['inputs', 'histories'], 'all densities, parameters, units, profile names',
     'Tests sample single densities and a few profiles.',
     [T, E], [('laws', T + ':bergfeld, gerling, scapozza, tensile_strength_slab'), ('database', T + ':load_dummy_profile')],
     ['bergfeld(), gerling(), scapozza(), tensile_strength_slab()', 'load_dummy_profile()'])

prop('C26', 'The through-depth mesh covers every layer with its own properties',
     'For every slab and mesh size, get_zmesh returns grid points from the top (-h/2) to the bottom (h/2) surface, in order, with both faces of every layer included, no two neighbouring points of a layer further apart than the mesh size, equally spaced within a layer, and next to each point the Young modulus, Poisson ratio and density of the layer it belongs to. Stress fields have one row per grid point.',
     ['inputs', 'configurations'], 'all layerings and mesh sizes (finer and coarser than layers)',
     'Tests check the shape for one slab.',
     [M, E], [('mesh', M + ':get_zmesh'), ('ply coordinates', E + ':get_ply_coordinates')],
     ['get_zmesh(dz)', 'Sxx(), Txz(), Szz()'])

prop('C27', 'Segment set-up reproduces the requested geometry for every system',
     'For every system, calc_segments returns consistent segment data for the intact, cracked and combined configuration: lengths that add up to the column (less the resting part after touchdown), an unsupported stretch of the requested crack length on the requested side (centred under the skier for skier systems), the skier mass on the central joint, all segments supported in the intact configuration, and user lists passed through unchanged for skiers. Lists are mutually consistent and accepted by the solver, the energy methods and the rasteriser.',
     ['inputs', 'configurations'], 'all systems, lengths, cracks (including none), masses, touchdown stages',
     'Tests check one PST.',
     [M], [('segments', M + ':calc_segments')],
     ['calc_segments()'])

prop('C28', 'Plot utilities compute what they document',
     'For every grid, outline returns the closed-path boundary values of the grid in order, without repetition; adjust_lightness scales the HLS lightness (clipped to white) and keeps the hue; tight_central_distribution returns an increasing, symmetric set within plus/minus the limit that is denser around zero; significant_digits returns minus the decimal exponent; the midpoint normalisation maps its midpoint to 0.5, is monotone, and does not exceed [0, 1]. Figures are shown in notebooks and saved as plots/<name>.png everywhere else; the clock helper counts milliseconds.',
     ['inputs', 'configurations'], 'all grids, colours, limits, decimals, ranges and interpreters',
     'Not tested beyond smoke tests.',
     [PL], [('utilities', PL + ':outline, adjust_lightness, tight_central_distribution, significant_digits, MidpointNormalize, save_plot'), ('interpreter and clock', 'weac/tools.py:isnotebook, time')],
     ['return values'])

prop('C29', 'Far from loads and cracks the slab is in its uniform state',
     'For every slab, the intact, uniformly loaded part far from ends, cracks and skiers has the uniform state: weak-layer stress carries exactly the local weight and surface load (sigma = -(qn+pn), tau = qt+pt) with no axial force and bending moment, all quantities constant along the slab, and a shear force that balances the moment of the tangential loads. The influence of a local load or crack decays, so that lengthening sufficiently long end segments, moving them, or choosing another end condition changes nothing near the load, and an infinite slab without skier or crack is uniform everywhere.',
     ['inputs', 'configurations'], 'all slabs, loads, angles, lengths, positions',
     'Needs pairs of models of different extent and arbitrary loads.',
     [E, M], [('particular integral of supported segments', E + ':zp'), ('decaying solutions', E + ':zh'), ('infinite ends', M + ':bc')],
     ['z()', 'sig, tau, N, M, V'])

prop('C30', 'Results do not depend on the container or number type of the inputs',
     'The same values give the same results in every accepted representation: numbers as Python or numpy integers or floats; layer tables as nested lists, tuples, lists of arrays, and integer, read-only, strided or column-major arrays; segment lists as lists, tuples or arrays; solution vectors, constants and coordinates as read-only, strided or column-major arrays. No argument is modified.',
     ['inputs', 'configurations'], 'all configurations, all outputs',
     'Tests use one representation each.',
     [E, M, T, 'weac/layered.py', 'weac/inverse.py'], [('section properties', E + ':set_beam_properties, calc_laminate_stiffness_parameters'), ('assembly', M + ':assemble_and_solve'), ('fields', M + ':Sxx, Txz, Szz'), ('contact of a profile', T + ':touchdown_distance')],
     ['section properties', 'segments', 'solutions', 'all outputs', 'argument values after the calls'])

prop('C31', 'Responses to skier loads obey reciprocity and stiffness ordering',
     'For every slab on a weak layer of given stiffness and vanishing thickness, with any crack pattern, in infinite slabs and free columns: the work of a skier load on the displacements caused by a second one equals the work of the second on those caused by the first (Maxwell-Betti); the work of a load on its own displacement is positive, does not grow when the weak layer or the slab becomes stiffer, and does not shrink when a crack is added. Displacements are those in load direction at the top of the slab.',
     ['inputs', 'configurations'], 'all slabs, inclinations, crack patterns, pairs of load positions and masses',
     'Needs pairs of solutions for arbitrary loads and stiffnesses.',
     [M, E], [('load transfer at joints', M + ':assemble_and_solve'), ('stiffness', E + ':calc_laminate_stiffness_matrix, calc_foundation_stiffness, calc_system_matrix')],
     ['w(z), u(z, -h/2)', 'get_skier_load()'])

prop('C32', 'Special values are no exceptions: results depend continuously on the inputs',
     'For every system without touchdown, section properties, loads, displacements, section forces, stresses, energy release rates and substitute springs depend continuously on every input (inclination, loads, densities, thicknesses, elastic and parametrisation constants, lengths, stiffness ratio); in columns with touchdown so do collapse height, transition lengths and, within a stage, touchdown length and solution. In particular special values are limits of their neighbours: flat terrain, no surface load, a skier of no mass, a vanishing crack, no lateral contraction, uniform layers, equal lengths or stiffnesses, round numbers. The incremental energy release rate of a crack of no length is not defined, and the number of mesh and raster points is discrete.',
     ['inputs', 'configurations'], 'all configurations, all values of each input',
     'Tests use few values of each input, most of them special ones, and never a neighbouring one.',
     [E, M, T], [('section properties', E + ':set_beam_properties, calc_laminate_stiffness_matrix'), ('eigenvalues', E + ':calc_eigensystem'), ('segments', M + ':calc_segments'), ('wedge of vertical faces', T + ':calc_vertical_bc_center_of_gravity'), ('crack tips', M + ':gdif'), ('stages', M + ':calc_touchdown_mode')],
     ['section properties', 'z()', 'gdif, ginc', 'Sxx, Txz, Szz, principal stresses', 'substitute_stiffness, calc_a1, calc_a2, td'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
