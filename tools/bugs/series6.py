"""Sixth series of planted bugs."""
M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('g01-quadrature-limit', 'C12',
    [(M, '            Ginc1 += quad(int1, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)\n            Ginc2 += quad(int2, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)\n',
      '            xi, wi = np.polynomial.legendre.leggauss(7)\n            xi, wi = l / 2 * (1 + xi), l / 2 * wi\n'
      '            Ginc1 += sum(w * int1(x) for x, w in zip(xi, wi)) / (2 * da)\n            Ginc2 += sum(w * int2(x) for x, w in zip(xi, wi)) / (2 * da)\n')],
    '''
m = weac.Layered(system='skiers')
m.set_foundation_properties(t=2, E=5, update=True)
L = 4000.
li, mi = np.array([1e4, L, L, 1e4]), np.array([0, 300, 0])
k1, k0 = np.array([True, False, False, True]), np.array([True]*4)
C0 = m.assemble_and_solve(phi=30, li=li, mi=mi, ki=k0)
C1 = m.assemble_and_solve(phi=30, li=li, mi=mi, ki=k1)
G = m.ginc(C0, C1, 30, li, k1, k0)
g = 0
for j in (1, 2):
    x = np.linspace(0, L, 40001)
    z0, z1 = m.z(x, C0[:, [j]], L, 30, True), m.z(x, C1[:, [j]], L, 30, False)
    g += np.trapezoid(m.sig(z0)*m.eps(z1)*m.t, x)/(4*L)
assert abs(G[1] - g) < 2e-2*abs(g), (G, g)
''', 'a crack much longer than the decay length of the weak-layer stress', 'incremental energy release rate')

bug('g02-rounded-interfaces', 'C01',
    [(EG, '        return np.cumsum(t) - self.h/2\n', '        return np.round(np.cumsum(t), 1) - self.h/2\n')],
    '''
m = weac.Layered(layers=[[300, 0.46]]*20)
n = weac.Layered(layers=[[300, 9.2]])
assert abs(m.D11 - n.D11) < 1e-9*n.D11 and abs(m.A11 - n.A11) < 1e-9*n.A11
m = weac.Layered(layers=[[300, 10.04]])
n = weac.Layered(layers=[[300, 20.08]])
assert abs(2*m.A11 - n.A11) < 1e-9*n.A11
''', 'layer thicknesses with two decimals', 'layer interfaces')

bug('g03-shared-profiles', 'C18',
    [(T, 'def load_dummy_profile(profile_id):\n', '_PROFILES = {}\n\n\ndef load_dummy_profile(profile_id):\n'),
     (T, '    layers = profile[:, 0:2]\n    E = profile[:, 2]\n', '    profile = _PROFILES.setdefault(profile_id.lower(), profile)\n    layers = profile[:, 0:2]\n    E = profile[:, 2]\n')],
    '''
from weac.tools import load_dummy_profile
layers, E = load_dummy_profile('a')
layers[:, 1] *= 2
layers, E = load_dummy_profile('a')
assert layers[:, 1].sum() == 360
''', 'a caller that modifies a loaded profile', 'profile database')

bug('g04-light-snow', 'C25',
    [(T, '    return C0 * 1e3 * (rho / rho0) ** C1\n', '    return C0 * 1e3 * (np.maximum(rho, 40) / rho0) ** C1\n')],
    '''
from weac.tools import bergfeld
assert abs(bergfeld(30.)/bergfeld(60.) - 0.5**4.4) < 1e-9
''', 'densities below 40 kg/m^3', 'modulus of new snow')

bug('g06-strength-of-layers', 'C14',
    [(M, '            rho = self.get_zmesh(dz=dz)[:, 3]\n            # Norm', '            rho = np.sort(self.get_zmesh(dz=dz)[:, 3])\n            # Norm')],
    '''
m = weac.Layered(system='skier', layers=[[400, 100], [200, 100]])
s = m.calc_segments(L=20000, a=0, m=80, phi=30)['crack']
C = m.assemble_and_solve(phi=30, **s)
z = m.z([9900.], C[:, [0]], s['li'][0], 30)
a, b = m.principal_stress_slab(z, 30, normalize=True), m.principal_stress_slab(z, 30)
from weac.tools import tensile_strength_slab
assert abs(b[25, 0]/a[25, 0] - tensile_strength_slab(400)) < 1e-9
''', 'layers with density decreasing downwards', 'strength of the layers')

bug('g07-many-segments', 'C10',
    [(M, '        nq = np.ceil(li / li.sum() * num).astype("int")\n', '        nq = np.round(li / li.sum() * num).astype("int")\n')],
    '''
m = weac.Layered(system='skiers')
s = {'li': np.array([1e4, 10., 1e4]), 'mi': np.array([0, 80]), 'ki': np.array([True, True, True])}
C = m.assemble_and_solve(phi=0, **s)
x, z, xb = m.rasterize_solution(C=C, phi=0, **s)
assert 1e4 in x, x
''', 'a segment that is short compared to the grid', 'grid without the crack tips')

bug('g08-mass-between', 'C04',
    [(M, '            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * self.h / 2, Fn])\n',
      '            arm = self.h / 2 if ki[i - 1] or ki[i] else 0\n            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * arm, Fn])\n')],
    '''
m = weac.Layered(system='skiers')
s = {'li': np.array([1e4, 100., 100, 1e4]), 'mi': np.array([0, 80, 0]), 'ki': np.array([True, False, False, True])}
C = m.assemble_and_solve(phi=30, **s)
a, b = m.z(100., C[:, [1]], 100., 30, False), m.z(0., C[:, [2]], 100., 30, False)
Fn, Ft = m.get_skier_load(80, 30)
assert abs(abs(m.M(a) - m.M(b))[0] - abs(Ft)*m.h/2) < 1e-6*abs(Ft)*m.h
''', 'a skier above an unsupported span on an inclined slope', 'moment of the skier load')

bug('g09-crack-tips-next-to-ends', 'C11',
    [(M, '            avgmask[[0, -1]] = ki[[0, -1]]  # Do not weight edge cracks\n', '            avgmask[[0, -1]] = ki[0] and ki[-1]  # Do not weight edge cracks\n')],
    '''
m = weac.Layered(system='pst-')
m.calc_segments(L=2000, a=200, phi=30)
s = {'li': np.array([1000., 200, 1000, 200]), 'mi': np.array([0, 0, 0]), 'ki': np.array([True, False, True, False])}
C = m.assemble_and_solve(phi=30, **s)
G = m.gdif(C, 30, **s)
g = [m.Gi(m.z(x, C[:, [i]], 1000., 30, True))[0] for x, i in ((1000., 0), (0., 2), (1000., 2))]
assert abs(G[1] - (g[0]/2 + g[1]/2 + g[2])) < 1e-12
''', 'a column with an edge crack and an inner crack', 'weights of inner crack tips')

bug('g10-rested-memory', 'C17',
    [(M, '            self.kn = self.ratio * self.kn\n            self.kt = self.ratio * self.kt\n', '            self.kn = self.ratio * self.kn\n            self.kt = self.kn / (2 * (1 + self.weak["nu"]))\n')],
    '''
m = weac.Layered(system='pst-', touchdown=True, layers=[[120, 150], [350, 60]])
m.calc_segments(L=5000, a=300, phi=0)
k = m.substitute_stiffness(3000, 'rested', 'rot')
m.kn, m.kt = 1000*m.kn, 1000*m.kt
m.calc_system_matrix(); m.calc_eigensystem()
assert abs(m.substitute_stiffness(3000, 'supported', 'rot')/k - 1) < 1e-9
''', 'slabs with bending-extension coupling on the collapsed layer', 'shear stiffness of the collapsed layer')

bug('g12-stress-interface', 'C13',
    [(M, '            Sxx[i, :] = E / (1 - nu**2) * self.du_dx(Z, z)\n', '            Sxx[i, :] = E / (1 - nu**2) * self.du_dx(Z, round(z, 2))\n')],
    '''
m = weac.Layered(system='skier', layers=[[300, 0.333], [100, 0.333]])
s = m.calc_segments(L=2000, a=0, m=1, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
z = m.z([990.], C[:, [0]], s['li'][0], 0)
S = m.Sxx(z, 0, dz=0.1)
zz = m.get_zmesh(dz=0.1)
w = zz[:, 1]/(1 - zz[:, 2]**2)*m.du_dx(z, zz[0, 0])[0] if False else None
e = m.du_dx(z, zz[:, 0].reshape(-1, 1))[:, 0] if False else np.array([m.du_dx(z, q)[0] for q in zz[:, 0]])
r = zz[:, 1]/(1 - zz[:, 2]**2)*e*1e3
assert np.allclose(S[:, 0], r, rtol=1e-3, atol=1e-6*abs(r).max()), (S[:, 0], r)
''', 'thin layers', 'axial stress')
