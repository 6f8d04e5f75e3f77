M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('b01-coupling-poisson', 'C01',
    [(EG, "B11 = B11 + 1/2*E/(1 - nu**2)*(z[i+1]**2 - z[i]**2)", "B11 = B11 + 1/2*E/(1 - nu/4)*(z[i+1]**2 - z[i]**2)")],
    '''
m = weac.Layered(layers=[[180, 100], [300, 100]])
m.set_beam_properties([[180, 100], [300, 100]], nu=0.1, update=True)
E = m.slab[:, 2] / (1 - 0.01)
want = (E[0]*(0 - 100**2) + E[1]*(100**2 - 0))/2
assert abs(m.B11 - want) < 1e-9*abs(want), (m.B11, want)
''', 'a layered slab with a Poisson ratio other than the default', 'bending-extension coupling stiffness')

bug('b02-surface-load-sign', 'C02',
    [(EG, "pt = -self.p*np.sin(phi)                # Tangential direction", "pt = -self.p*np.sin(abs(phi))           # Tangential direction")],
    '''
m = weac.Layered()
m.set_surface_load(0.01)
assert m.get_surface_load(-30)[1] > 0
''', 'a surface load on a slope of negative inclination', 'tangential component points uphill')

bug('b03-system-matrix', 'C03',
    [(EG, "               + self.B11*self.h*kt*(self.h + self.t)\n", "               + self.B11*self.h*kt*(self.h - self.t)\n")],
    '''
m = weac.Layered(system='skiers', layers=[[120, 100], [400, 150]])
phi, l = 30, 300.0
s = m.calc_segments(li=[5e3, 5e3], mi=[80], ki=[True, True], k0=[True, True], phi=phi)['crack']
C = m.assemble_and_solve(phi=phi, **s)
x, d = 40.0, 1e-2
z = m.z([x - d, x, x + d], C[:, [1]], 5e3, phi)
N, t = m.N(z), m.tau(z)
qt = m.get_weight_load(phi)[1]
r = (N[2] - N[0])/(2*d) - t[1] + qt
assert abs(r) < 1e-5*abs(t[1]), (r, t[1])
''', 'a slab with bending-extension coupling', 'equilibrium of supported segments')

bug('b04-skier-lever', 'C04',
    [(M, "rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * self.h / 2, Fn])", "rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * (self.h / 2 + self.zs), Fn])")],
    '''
m = weac.Layered(system='skier', layers=[[150, 200], [400, 100]])
s = m.calc_segments(L=2e4, a=0, m=100, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
a = m.M(m.z(s['li'][0], C[:, [0]], s['li'][0], 35))[0]
b = m.M(m.z(0, C[:, [3]], s['li'][3], 35))[0]
Ft = m.get_skier_load(100, 35)[1]
assert abs((b - a) - Ft*m.h/2) < 1e-6*abs(Ft*m.h), (b - a, Ft*m.h/2)
''', 'a skier on an inclined slab whose centre of gravity is not at mid-height', 'moment of the skier load')

bug('b05-surface-particular', 'C05',
    [(EG, "                [-(qt*(h + t - 2*zs) + pt*(2*h + t))/(2*kA55)],", "                [-(qt*(h + t - 2*zs) + pt*(2*h - t))/(2*kA55)],")],
    '''
m = weac.Layered(system='skier')
m.set_surface_load(0.01)
m.calc_segments(phi=30)
K, q = m.calc_system_matrix(), m.get_load_vector(30)
r = K @ m.zp(0, 30) + q
assert np.max(np.abs(r)) < 1e-15, r
''', 'a surface load on an inclined slab', 'uniform rotation of the slab')

bug('b06-free-axial', 'C06',
    [(EG, "[(-2*(qt + pt)/A11 - B11*(qn + pn)*x/K0)/2*x],", "[(-2*(qt + pt)/A11 - B11*qn*x/K0)/2*x],")],
    '''
m = weac.Layered(system='pst-', layers=[[150, 150], [350, 150]])
m.set_surface_load(0.05)
s = m.calc_segments(L=3000, a=800, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
z = m.z(np.linspace(0, 800, 9), C[:, [1]], 800, 10, bed=False)
N = m.N(z)
q = m.get_weight_load(10)[1] + m.get_surface_load(10)[1]
want = q*np.linspace(800, 0, 9)
assert np.max(np.abs(N - want)) < 1e-6*abs(q*800), (N, want)
''', 'an unsupported segment of a coupled slab under a surface load', 'axial force of free segments')

bug('b07-touchdown-left', 'C07',
    [(M, "                    rhs[:3] = np.vstack([-N, 0, self.tc])", "                    rhs[:3] = np.vstack([N, 0, self.tc])")],
    '''
r = []
for system, phi in (('pst-', 20), ('-pst', -20)):
    m = weac.Layered(system=system, layers=[[200, 300]], touchdown=True)
    m.set_foundation_properties(t=20, E=0.2, update=True)
    s = m.calc_segments(L=30e3, a=12e3, phi=phi)['crack']
    assert m.mode == 'C'
    C = m.assemble_and_solve(phi=phi, **s)
    x, z, _ = m.rasterize_solution(C, phi, **s)
    r.append(np.max(np.abs(m.N(z))))
assert abs(r[0] - r[1]) < 1e-6*r[0], r
''', 'a column cut from the left in touchdown stage C on a slope', 'friction of the resting part')

bug('b08-skier-mass', 'C08',
    [(EG, "F = 1e-3*np.array(m)*self.g/self.lski   # Total skier load (N)", "F = 1e-3*np.array(m, dtype=int)*self.g/self.lski   # Total skier load (N)")],
    '''
m = weac.Layered(system='skier')
a, b = m.get_skier_load(80.9, 20)[0], m.get_skier_load(809, 20)[0]
assert abs(10*a - b) < 1e-9*b, (a, b)
''', 'a skier mass that is not an integer', 'proportionality of the skier load to the mass')

bug('b09-crack-length', 'C09',
    [(M, "da = li.sum() if li.sum() > 0 else np.nan", "da = li.max() if li.sum() > 0 else np.nan")],
    '''
m = weac.Layered(system='skiers')
def G(cut):
    li, n = [5e3] + cut + [5e3], len(cut)
    g = m.calc_segments(li=li, mi=[0]*(n + 1), ki=[True] + [False]*n + [True], k0=[True]*(n + 2), phi=30)
    C0, C1 = (m.assemble_and_solve(phi=30, **g[k]) for k in ('nocrack', 'crack'))
    return m.ginc(C0, C1, 30, **g['both'])[0]
a, b = G([400]), G([250, 150])
assert abs(a - b) < 1e-3*a, (a, b)
''', 'a crack that spans several segments', 'incremental energy release rate')

bug('b10-crack-tip-grid', 'C10',
    [(M, "transmissionbool = [ki[j] or ki[j + 1] for j, _ in enumerate(ki[:-1])]", "transmissionbool = [ki[j] for j, _ in enumerate(ki[:-1])]")],
    '''
m = weac.Layered(system='-pst')
s = m.calc_segments(L=2000, a=300, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
x, z, xb = m.rasterize_solution(C, 0, **s)
assert abs(np.nanmin(xb) - 300) < 1e-9, np.nanmin(xb)
''', 'a crack tip at the left end of a supported segment', 'weak-layer coordinates at the crack tip')

bug('b11-tip-weights', 'C11',
    [(M, "            avgmask[[0, -1]] = ki[[0, -1]]  # Do not weight edge cracks", "            avgmask[[0, -1]] = ki[0]  # Do not weight edge cracks")],
    '''
m = weac.Layered(system='pst-')
m.calc_segments(phi=20)
li, ki = np.array([400., 2000, 300, 2000]), np.array([False, True, False, True])
C = m.assemble_and_solve(20, li, np.zeros(3), ki)
z = [m.z(0, C[:, [1]], 2000, 20), m.z(2000, C[:, [1]], 2000, 20), m.z(0, C[:, [3]], 2000, 20)]
g = [m.Gi(v)[0] for v in z]
want = g[0] + (g[1] + g[2])/2
got = m.gdif(C, 20, li, ki)[1]
assert abs(got - want) < 1e-9*want, (got, want)
''', 'a column with an edge crack on one side and a crack in its middle', 'weights of crack tips')

bug('b12-precrack', 'C12',
    [(M, "iscrack = k0 & ~ki", "iscrack = ~ki")],
    '''
m = weac.Layered(system='skiers')
g = m.calc_segments(li=[5e3, 200, 300, 5e3], mi=[0, 0, 0], ki=[True, False, False, True], k0=[True, False, True, True], phi=30)
C0, C1 = (m.assemble_and_solve(phi=30, **g[k]) for k in ('nocrack', 'crack'))
G = m.ginc(C0, C1, 30, **g['both'])
x = (np.arange(2000) + 0.5)*300/2000
z0, z1 = m.z(x, C0[:, [2]], 300, 30), m.z(x, C1[:, [2]], 300, 30, bed=False)
want = np.mean(-m.sig(z0)*m.w(z1))/2
assert abs(G[1] - want) < 1e-3*want, (G, want)
''', 'growth of an existing crack', 'crack opening energy')

bug('b13-stress-poisson', 'C13',
    [(M, "dsxx_dxdx[i, :] = E / (1 - nu**2) * (du0_dxdxdx + z * dpsi_dxdxdx)", "dsxx_dxdx[i, :] = E / (1 - nu / 4) * (du0_dxdxdx + z * dpsi_dxdxdx)")],
    '''
m = weac.Layered(system='skier', layers=[[250, 300]])
m.set_beam_properties([[250, 300]], nu=0.0, update=True)
s = m.calc_segments(L=1e4, a=0, m=150, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
z = m.z(np.array([10., 60., 200.]), C[:, [3]], s['li'][3], 0)
S = m.Szz(z, 0, dz=1, unit='MPa')
assert np.max(np.abs(S[-1] - m.sig(z))) < 2e-2*np.max(np.abs(m.sig(z))), (S[-1], m.sig(z))
m.set_beam_properties([[250, 300]], nu=0.45, update=True)
C = m.assemble_and_solve(phi=0, **s)
z = m.z(np.array([10., 60., 200.]), C[:, [3]], s['li'][3], 0)
S = m.Szz(z, 0, dz=1, unit='MPa')
assert np.max(np.abs(S[-1] - m.sig(z))) < 2e-2*np.max(np.abs(m.sig(z))), (S[-1], m.sig(z))
''', 'a Poisson ratio other than the default', 'transverse normal stress at the weak layer')

bug('b14-strength-unit', 'C14',
    [(M, "return Ps / tensile_strength_slab(rho, unit=unit)[:, None]", "return Ps / tensile_strength_slab(rho)[:, None]")],
    '''
m = weac.Layered(system='skier', layers=[[250, 300]])
s = m.calc_segments(L=1e4, a=0, m=150, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
z = m.z(np.array([10., 60., 200.]), C[:, [3]], s['li'][3], 0)
a, b = (m.principal_stress_slab(z, 0, dz=20, unit=u, normalize=True) for u in ('kPa', 'MPa'))
assert np.allclose(a, b, rtol=1e-9), (a[0], b[0])
''', 'normalisation of stresses in MPa', 'ratio of principal stress to tensile strength')

bug('b15-displacement-unit', 'C15',
    [(M, "return convert[unit] * (Z[0, :] + z0 * self.psi(Z))", "return convert[unit] * Z[0, :] + z0 * self.psi(Z)")],
    '''
m = weac.Layered()
Z = np.array([[.1], [0], [.2], [0], [.01], [0]])
assert abs(m.u(Z, z0=-50, unit='cm')[0] - 0.1*m.u(Z, z0=-50)[0]) < 1e-12
''', 'displacement away from the midplane in another unit than mm', 'unit of the rotational part')

bug('b16-touchdown-spring', 'C16',
    [(M, '            kRr = self.substitute_stiffness(a - x, "rested", "rot")', '            kRr = self.substitute_stiffness(a - x, "supported", "rot")')],
    '''
def lC(ratio):
    m = weac.Layered(system='pst-', layers=[[200, 300]], touchdown=True)
    m.set_foundation_properties(t=20, E=0.2, update=True)
    m.calc_segments(L=30e3, a=12e3, phi=0, ratio=ratio)
    assert m.mode == 'C'
    return m.td
a, b = lC(1), lC(3000)
assert a < b*(1 - 1e-4) or a > b*(1 + 1e-4), (a, b)
''', 'touchdown stage C with a stiffness ratio other than one', 'length of the span between crack tip and touchdown')

bug('b17-rested-stiffness', 'C17',
    [(M, "            self.kt = self.ratio * self.kt\n", "            self.kt = max(self.ratio, 1) * self.kt\n")],
    '''
m = weac.Layered(system='pst-', layers=[[200, 300]], touchdown=True)
m.calc_segments(L=3e3, a=100, phi=0, ratio=0.25)
k = m.substitute_stiffness(1e3, 'rested', 'rot')
n = weac.Layered(system='pst-', layers=[[200, 300]], touchdown=True)
n.set_foundation_properties(E=0.25/4, update=True)
n.calc_segments(L=3e3, a=100, phi=0, ratio=1)
w = n.substitute_stiffness(1e3, 'supported', 'rot')
assert abs(k - w) < 1e-6*w, (k, w)
''', 'a collapsed weak layer that is softer than the intact one', 'substitute stiffness of the rested segment')

bug('b18-stale-mesh', 'C18',
    [(M, '''        # Assemble mesh with columns (z, E, G, nu)
        return np.column_stack([zi, si])''', '''        # Assemble mesh with columns (z, E, G, nu)
        key = (dz, len(zi))
        if getattr(self, "_zmesh", (None,))[0] != key:
            self._zmesh = (key, np.column_stack([zi, si]))
        return self._zmesh[1].copy()''')],
    '''
m = weac.Layered(layers=[[200, 100], [300, 100]])
m.get_zmesh(dz=10)
m.set_beam_properties([[150, 100], [350, 100]], update=True)
assert m.get_zmesh(dz=10)[0, 3] == 150, m.get_zmesh(dz=10)[0]
''', 'mesh requested, slab changed to one with as many grid points, mesh requested again', 'material data of the mesh')

bug('b19-steady-state-slope', 'C19',
    [(T, "touchdown.calc_segments(L=1e5, a=5 * first_contact, phi=phi)", "touchdown.calc_segments(L=1e5, a=5 * first_contact)")],
    '''
a = weac.tools.touchdown_distance(layers=[[240, 200]], phi=55)
m = weac.Layered(system='pst-', layers=[[240, 200]], touchdown=True)
m.set_foundation_properties(t=10, E=0.25, update=True)
m.calc_segments(L=1e5, a=5*a[0], phi=55)
assert abs(m.td - a[2]) < 1e-6*m.td, (m.td, a[2])
''', 'an inclined slab', 'steady-state touchdown distance')

bug('b21-too-few-masses', 'C21',
    [(M, "if len(li) != len(ki) or len(li) - 1 != len(mi):", "if len(li) != len(ki) or len(li) - 1 < len(mi):")],
    '''
m = weac.Layered(system='skiers')
try:
    m.assemble_and_solve(0, np.array([5e3, 100, 5e3]), np.array([80]), np.array([True]*3))
except ValueError:
    pass
else:
    raise SystemExit('accepted too few masses')
''', 'fewer masses than joints', 'rejection of inconsistent lists')

bug('b22-weak-layer-origin', 'C22',
    [(P, "        xwl = xwl - max(xwl)/2", "        xwl = xwl - max(xsl)/2")],
    '''
import matplotlib.axes as A
got = []
f = A.Axes.contourf
A.Axes.contourf = lambda self, *a, **k: (got.append(a), f(self, *a, **k))[1]
m = weac.Layered(system='skier')
s = m.calc_segments(L=1e4, a=0, m=80, phi=20)['crack']
C = m.assemble_and_solve(phi=20, **s)
x, z, xb = m.rasterize_solution(C, 20, num=60, **s)
weac.plot.deformed(m, xsl=x, xwl=xb, z=z, phi=20, dz=50, scale=1, field='w')
lo = [float(np.nanmin(a[0])) for a in got]
assert abs(lo[0] - lo[1]) < 1, lo
''', 'a contour plot of a skier system', 'weak layer drawn below the slab')

bug('b24-wedge-moment', 'C24',
    [(M, "M = -self.g * m * (xs * np.cos(phi) + zs * np.sin(phi))", "M = -self.g * m * (xs * np.cos(phi) - zs * np.sin(phi))")],
    '''
m = weac.Layered(system='vpst-', layers=[[150, 200], [350, 200]])
s = m.calc_segments(L=3e3, a=500, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
got = m.M(m.z(0, C[:, [0]], s['li'][0], 35))[0]
# integrate the wedge numerically
z = (np.arange(40000) + .5)/40000*400 - 200
rho = np.where(z < 0, 150e-12, 350e-12)
T = np.tan(np.deg2rad(35))
w = (200 - z)*T
c, n = np.cos(np.deg2rad(35)), np.sin(np.deg2rad(35))
want = -9810*np.sum(rho*w*(w/2*c + z*n))*400/40000
assert abs(got - want) < 1e-5*abs(want), (got, want)
''', 'a column with vertical faces', 'moment of the wedge')

bug('b25-scapozza-inplace', 'C25',
    [(T, "    rho = rho * 1e-12  # Convert to t/mm^3\n", "    rho *= 1e-12  # Convert to t/mm^3\n")],
    '''
r = np.array([150., 300.])
weac.tools.scapozza(r)
assert list(r) == [150, 300], r
''', 'densities given as an array that is used again', 'the caller\'s densities')

bug('b26-mesh-rounding', 'C26',
    [(M, "nlayer = np.ceil((z[1:] - z[:-1]) / dz).astype(np.int32) + 1", "nlayer = np.maximum(np.round((z[1:] - z[:-1]) / dz), 1).astype(np.int32) + 1")],
    '''
m = weac.Layered(layers=[[200, 12.4]])
assert np.max(np.diff(m.get_zmesh(dz=10)[:, 0])) <= 10, m.get_zmesh(dz=10)[:, 0]
''', 'a layer whose thickness is no multiple of the mesh size', 'largest distance of grid points')

bug('b27-skier-mass-type', 'C27',
    [(M, "            mi = np.array([0, m, 0])  # Skier weights", "            mi = np.array([0, m, 0], dtype=int)  # Skier weights")],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=1e4, a=0, m=75.5, phi=0)['crack']
assert s['mi'][1] == 75.5, s['mi']
''', 'a skier mass that is not an integer', 'mass at the centre')

bug('b28-midpoint', 'C28',
    [(P, "            (self.midpoint - self.vmin)/(self.midpoint - self.vmax))))", "            self.vmin/self.vmax)))")],
    '''
from weac.plot import MidpointNormalize
f = MidpointNormalize(1., 9., midpoint=4.)
assert abs(float(f(1.)) - 0.2) < 1e-9, f(1.)
''', 'a midpoint other than zero', 'normalised values below the midpoint')

bug('b29-uniform-deflection', 'C29',
    [(EG, "                [(qn + pn)/kn],", "                [qn/kn],")],
    '''
m = weac.Layered(system='skier')
m.set_surface_load(0.01)
s = m.calc_segments(L=2e4, a=0, m=0, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
q = m.get_weight_load(0)[0] + 0.01
sg = -m.sig(m.z(5e3, C[:, [0]], 1e4, 0))[0]
assert abs(sg - q) < 1e-6*q, (sg, q)
''', 'a surface load', 'weak-layer stress of the uniform slab')
