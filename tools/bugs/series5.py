"""Fifth series of planted bugs."""
M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('f01-wedge-gravity', 'C24',
    [(M, '            N = -self.g * m * np.sin(phi)\n            M = -self.g * m *', '            g = 9810  # Gravitation (mm/s^2)\n            N = -g * m * np.sin(phi)\n            M = -g * m *'),
     (M, '            V = self.g * m * np.cos(phi)\n', '            V = g * m * np.cos(phi)\n')],
    '''
def V(g):
    m = weac.Layered(system='vpst-')
    m.g = g
    s = m.calc_segments(L=2000, a=300, phi=30)['crack']
    C = m.assemble_and_solve(phi=30, **s)
    return m.V(m.z(0., C[:, [0]], s['li'][0], 30))[0]
assert abs(V(4905) - V(9810)/2) < 1e-9
''', 'another value of gravity', 'weight of the wedge')

bug('f02-stress-gravity', 'C13',
    [(M, '        qn = rho * self.g * np.cos(np.deg2rad(phi))\n', '        qn = 9.81e3 * rho * np.cos(np.deg2rad(phi))\n')],
    '''
m = weac.Layered(system='skier')
m.g = 4905
s = m.calc_segments(L=20000, a=0, m=0, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
z = m.z([3000.], C[:, [0]], s['li'][0], 0)
assert abs(m.Szz(z, 0)[-1, 0] - m.sig(z, unit='kPa')[0]) < 1e-3*abs(m.sig(z, unit='kPa')[0])
''', 'another value of gravity', 'weight in the transverse stress')

bug('f03-free-shear', 'C03',
    [(EG, '            H54 = -3*x**2 + 6*self.K0/(self.A11*self.kA55)\n', '            H54 = -3*x**2 - 6*self.D11/self.kA55\n')],
    '''
m = weac.Layered(system='pst-', layers=[[120, 100], [400, 200]])
x = 100.
# moment equilibrium of the free beam: M' = V
C = np.zeros((6, 1)); C[3] = 1e-6
d = 1e-3
z = [m.zh(x + k*d, 0, False) @ C for k in (-1, 1)]
dM = (m.M(z[1]) - m.M(z[0]))[0]/(2*d)
V = m.V(m.zh(x, 0, False) @ C)[0]
assert abs(dM - V) < 1e-6*abs(dM), (dM, V)
''', 'a cut column of a layered slab with bending-extension coupling', 'shear force of unsupported segments')

bug('f05-integer-slab', 'C30',
    [(EG, '        self.slab = np.vstack([layers.T, E, G, nu]).T\n', '        self.slab = np.zeros((len(layers), 5), dtype=layers.dtype)\n        self.slab[:, :2] = layers\n        self.slab[:, 2:] = np.array([E, G, nu]).T\n'),
     (EG, '            layers = np.array(layers)\n', '            layers = np.array(layers, dtype=np.result_type(np.array(layers), C0, C1))\n')],
    '''
m = weac.Layered(layers=[[240, 200]])
m.set_beam_properties([[240, 200]], C0=6, C1=4, update=True)
a = m.slab[0, 2]
m.set_beam_properties([[240., 200.]], C0=6, C1=4, update=True)
assert abs(a - m.slab[0, 2]) < 1e-9, (a, m.slab)
''', 'integer layers together with integer parameters', 'truncated moduli')

bug('f06-integer-positions', 'C30',
    [(EG, '''            z = np.concatenate([
                np.dot(self.zh(xi, l, bed), C)
                + self.zp(xi, phi, bed) for xi in x], axis=1)
''', '''            z = np.empty((6, len(x)), dtype=np.array(x).dtype)
            for i, xi in enumerate(x):
                z[:, [i]] = np.dot(self.zh(xi, l, bed), C) + self.zp(xi, phi, bed)
''')],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=10000, a=500, m=80, phi=20)['crack']
C = m.assemble_and_solve(phi=20, **s)
a = m.z([0, 10], C[:, [0]], s['li'][0], 20)
b = m.z([0., 10.], C[:, [0]], s['li'][0], 20)
assert np.allclose(a, b, rtol=1e-9, atol=0), a
''', 'integer positions', 'truncated solution')

bug('f07-tip-moment', 'C31',
    [(M, '            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * self.h / 2, Fn])\n',
      '            # Lever of the skier load\n            e = self.h / 2 if ki[i - 1] == ki[i] else 0\n            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * e, Fn])\n')],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[5000., 500., 5000.], mi=[80, 0], ki=[True, False, True], k0=[True]*3, phi=30)['crack']
C = m.assemble_and_solve(phi=30, **s)
a, b = m.z(5000., C[:, [0]], 5000., 30), m.z(0., C[:, [1]], 500., 30, bed=False)
Ft = m.get_skier_load(80, 30)[1]
assert abs((m.M(a) - m.M(b))[0] + Ft*m.h/2) < 1e-6*abs(Ft*m.h), m.M(a) - m.M(b)
''', 'a skier at a crack tip on a slope', 'moment of the load')

bug('f08-least-squares', 'C05',
    [(M, '        C = np.linalg.solve(zh0, rhs - zp0)\n', '        C = np.linalg.lstsq(zh0, rhs - zp0, rcond=1e-12)[0]\n')],
    '''
m = weac.Layered(system='pst-', layers=[[300, 500]])
m.set_foundation_properties(t=5, E=1, update=True)
s = m.calc_segments(L=30000, a=9000, phi=20)['crack']
C = m.assemble_and_solve(phi=20, **s)
z = m.z(9000., C[:, [1]], 9000., 20, bed=False)
q = m.get_weight_load(20)[0]
a = m.z(0., C[:, [1]], 9000., 20, bed=False)
assert abs(m.V(a)[0] - q*9000) < 1e-6*q*9000 and abs(m.M(z)[0]) < 1e-5*q*9000**2, (m.V(a), q*9000, m.M(z))
''', 'badly conditioned systems, e.g. long cuts', 'end conditions')

bug('f10-inner-joints', 'C10',
    [(M, '        transmissionbool = [ki[j] or ki[j + 1] for j, _ in enumerate(ki[:-1])]\n',
      '        transmissionbool = [ki[j] or (ki[j + 1] and li[j + 1] > 1) for j, _ in enumerate(ki[:-1])]\n')],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[5000., 500., 0.5, 5000.], mi=[0, 80, 0], ki=[True, False, True, True], k0=[True]*4, phi=30)['crack']
C = m.assemble_and_solve(phi=30, **s)
x, z, xb = m.rasterize_solution(C=C, phi=30, num=50, **s)
i = np.argmin(abs(x - 5500))
assert x[i] == 5500 and xb[i] == 5500, xb[i]
''', 'a crack tip in front of a very short supported segment', 'mask of the crack tip')

bug('f12-energy-order', 'C12',
    [(M, '        C0, C1, li = C0[:, iscrack], C1[:, iscrack], li[iscrack]\n', '        C0, C1, li = C0[:, iscrack], C1[:, ~ki], li[iscrack]\n')],
    '''
m = weac.Layered(system='skiers')
li, ki, k0 = [5000., 300., 400., 5000.], [True, False, False, True], [True, False, True, True]
s = m.calc_segments(li=li, mi=[0, 80, 0], ki=ki, k0=k0, phi=30)
C0, C1 = (m.assemble_and_solve(phi=30, **s[k]) for k in ('nocrack', 'crack'))
G = m.ginc(C0=C0, C1=C1, phi=30, **s['both'])
x = np.linspace(0, 400, 2001)
z0, z1 = m.z(x, C0[:, [2]], 400., 30), m.z(x, C1[:, [2]], 400., 30, bed=False)
f = m.sig(z0)*m.eps(z1)*m.t
I = np.sum((f[1:] + f[:-1])/2*np.diff(x))/800
assert abs(G[1] - I) < 2e-3*abs(I) + 1e-9, (G[1], I)
''', 'growth of a crack that exists in the initial state', 'displacements of another segment')

bug('f14-no-compression', 'C14',
    [(M, '            return Ps / tensile_strength_slab(rho, unit=unit)[:, None]\n', '            return np.clip(Ps, 0, None) / tensile_strength_slab(rho, unit=unit)[:, None]\n')],
    '''
m = weac.Layered(system='skier')
z = np.array([[0, -1e-3, 0.5, 0, 0, 0]]).T
a = m.principal_stress_slab(z, 10)
b = m.principal_stress_slab(z, 10, normalize=True)
assert np.array_equal(np.sign(a), np.sign(b))
''', 'points under compression in all directions', 'normalised stress')

bug('f15-degree', 'C15',
    [(M, '        if unit in ["deg", "degree", "degrees"]:\n', '        if unit in ["deg", "degrees"]:\n'),
     (M, '        elif unit in ["rad", "radian", "radians"]:\n            psi = Z[4, :]\n', '        else:\n            psi = Z[4, :]\n')],
    '''
m = weac.Layered()
z = np.ones((6, 1))
assert abs(m.psi(z, unit='degree')[0] - np.rad2deg(1)) < 1e-9
''', 'the unit given as degree', 'rotation in radians')

bug('f16-weight-only', 'C16',
    [(M, '''        L = self.L
        a = self.a
        tc = self.tc
        qn = self.calc_qn()
''', '''        L = self.L
        a = self.a
        tc = self.tc
        qn = self.get_weight_load(self.phi)[0]
''')],
    '''
def td(rho, p):
    m = weac.Layered(system='pst-', layers=[[rho, 200]], touchdown=True)
    m.set_beam_properties([[rho, 200]], C0=6.5*(240/rho)**4.4, update=True)
    m.set_surface_load(p)
    s = m.calc_segments(L=20000, a=9000, phi=0)['crack']
    assert m.mode == 'C'
    return m.td
q = 120e-12*9810*200
assert abs(td(240, 0) - td(120, q)) < 1e-3, (td(240, 0), td(120, q))
''', 'a surface load in stage C', 'length of the free part')

bug('f18-spring-of-crack', 'C18',
    [(M, '''                    kR = self.substitute_stiffness(self.a - self.td, "rested", "rot")
                    # Touchdown right
''', '''                    key = (self.L, self.a, self.ratio)
                    if getattr(self, "_kR", (None,))[0] != key:
                        self._kR = (key, self.substitute_stiffness(self.a - self.td, "rested", "rot"))
                    kR = self._kR[1]
                    # Touchdown right
''')],
    '''
def run(m, layers):
    m.set_beam_properties(layers, update=True)
    s = m.calc_segments(L=20000, a=9000, phi=0)['crack']
    assert m.mode == 'C'
    C = m.assemble_and_solve(phi=0, **s)
    return m.M(m.z(s['li'][1], C[:, [1]], s['li'][1], 0, bed=False))[0]
m = weac.Layered(system='pst-', touchdown=True)
run(m, [[240, 200]])
a = run(m, [[300, 300]])
b = run(weac.Layered(system='pst-', touchdown=True), [[300, 300]])
assert abs(a - b) < 1e-6*abs(b), (a, b)
''', 'another slab with the same cut', 'spring of the first slab')

bug('f20-single-precision', 'C20',
    [(I, '        C0, C1, Eweak = parameters\n', '        C0, C1, Eweak = np.asarray(parameters, dtype=np.float32)\n'),
     (I, '# Project imports\nfrom weac.mixins import FieldQ', '# Third party imports\nimport numpy as np\n\n# Project imports\nfrom weac.mixins import FieldQ')],
    '''
a = weac.Inverse(parameters=(6.0, 4.6, 0.25)).slab[0, 2]
b = weac.Inverse(parameters=(6.0 + 1e-8, 4.6, 0.25)).slab[0, 2]
assert b > a
''', 'small increments of the parameters, as in finite-difference gradients', 'derivatives with respect to the parameters')

bug('f22-weak-layer-normal', 'C22',
    [(P, "        nanmask = np.isfinite(xwl)\n", "        nanmask = np.isfinite(xwl) & (np.gradient(Wsl[0]) != 0)\n")],
    '''
import os, tempfile
os.chdir(tempfile.mkdtemp())
import matplotlib; matplotlib.use('Agg')
from weac import plot
import matplotlib.pyplot as plt
m = weac.Layered(system='pst-')
x = np.linspace(0, 1000, 5)
z = np.zeros((6, 5)); z[2] = 0.1; z[0] = np.linspace(0, 0.01, 5)
seen = []
keep = plot.save_plot
plot.save_plot = lambda name: seen.extend(len(l.get_xdata()) for l in plt.gca().lines)
plot.deformed(m, x, x, z, 0, field='w')
assert seen.count(2*5) or max(seen) > 5 and 2*5 + 1 in seen or len([n for n in seen if n >= 2*5]) >= 2, seen
''', 'a column with constant deflection', 'outline of the weak layer')

bug('f23-weight-at-midplane', 'C23',
    [(M, '        us = self.u(zq, z0=self.zs)\n', '        us = self.u(zq, z0=0)\n')],
    '''
def E(layers):
    m = weac.Layered(system='pst-', layers=layers)
    m.set_foundation_properties(t=0.01, E=1e-4, update=True)
    s = m.calc_segments(L=3000, a=300, phi=35)['crack']
    C = m.assemble_and_solve(phi=35, **s)
    return m.external_potential(C, 35, 3000, num=2000, **s)/m.internal_potential(C, 35, 3000, num=2000, **s)
r = E([[100, 200], [400, 200]])
assert abs(r + 2) < 1e-2, r
''', 'a layered slab on a slope', 'work of the tangential weight')

bug('f27-whole-half', 'C27',
    [(M, '            lb = (L - self.a) / 2  # Half bedded length\n            lf = self.a / 2  # Half free length\n',
      '            lb = (L - self.a) // 2  # Half bedded length\n            lf = L / 2 - lb  # Half free length\n')],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=10000, a=501, m=80, phi=0)['crack']
assert s['li'][1] + s['li'][2] == 501, s
''', 'an odd difference of column and crack length', 'crack length')

bug('f29-coupled-uniform', 'C29',
    [(EG, '''                    + h*pt*(2*h + t)/(4*kA55)],
''', '''                    + h*pt*(h + t - 2*zs + h)/(4*kA55)],
''')],
    '''
m = weac.Layered(system='skier', layers=[[100, 200], [400, 200]])
m.set_surface_load(0.01)
s = m.calc_segments(L=20000, a=0, m=0, phi=30)['crack']
C = m.assemble_and_solve(phi=30, **s)
z = m.z(3000., C[:, [0]], s['li'][0], 30)
assert abs(m.tau(z)[0] - m.calc_qt()) < 1e-9*abs(m.calc_qt()), (m.tau(z), m.calc_qt())
''', 'a surface load on a layered slab on a slope', 'shear stress of the uniform state')
