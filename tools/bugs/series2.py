M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('c01-database-poisson', 'C01',
    [(EG, "layers, E = load_dummy_profile(layers.split()[-1])", "layers, E, nu = *load_dummy_profile(layers.split()[-1]), 0.25")],
    '''
m = weac.Layered()
m.set_beam_properties('profile a', nu=0.1, update=True)
assert np.all(m.slab[:, 4] == 0.1), m.slab
''', 'a named profile together with a Poisson ratio other than the default', 'Poisson ratio of named profiles is ignored')

bug('c02-skier-gravity', 'C02',
    [(EG, "F = 1e-3*np.array(m)*self.g/self.lski   # Total skier load (N)", "F = 9.81*np.array(m)/self.lski   # Total skier load (N)")],
    '''
m = weac.Layered()
m.g = 4905
assert abs(m.get_skier_load(80, 0)[0] - 80*4.905/1000) < 1e-12
''', 'a change of the gravity attribute', 'skier loads ignore the gravity of the model')

bug('c03-second-derivative', 'C03',
    [(M, "        dz_dx = np.dot(K, z) + q\n        return np.dot(K, dz_dx)", "        dz_dx = np.dot(K, z) + q\n        return np.dot(K, dz_dx) + q * (self.p > 0)")],
    '''
m = weac.Layered(system='skier')
m.set_surface_load(0.01)
m.calc_segments(phi=20)
C = np.array([[1e-2, 2e-2, 3e-2, 1e-2, 2e-2, 1e-2]]).T
f = lambda x: m.dz_dx(m.z(x, C, 300.0, 20), 20)
d = 1e-3
num = (f(100 + d) - f(100 - d))/(2*d)
got = m.dz_dxdx(m.z(100.0, C, 300.0, 20), 20)
assert np.max(np.abs(num - got)/(np.abs(num).max() + 0*num)) < 1e-6, (num, got)
''', 'a surface load', 'second derivative of the solution vector')

bug('c04-left-spring-length', 'C04',
    [(M, '''                    kR = self.substitute_stiffness(self.a - self.td, "rested", "rot")
                    # Touchdown left''', '''                    kR = self.substitute_stiffness(self.a, "rested", "rot")
                    # Touchdown left''')],
    '''
r = []
for system in ('pst-', '-pst'):
    m = weac.Layered(system=system, layers=[[200, 300]], touchdown=True)
    m.set_foundation_properties(t=20, E=0.2, update=True)
    m.calc_segments(L=30e3, a=1, phi=0)
    a2 = m.calc_a2()
    s = m.calc_segments(L=30e3, a=1.002*a2, phi=0, ratio=20)['crack']
    C = m.assemble_and_solve(phi=0, **s)
    j, x = (1, s['li'][1]) if system == 'pst-' else (0, 0)
    z = m.z(x, C[:, [j]], s['li'][j], 0, bed=False)
    r.append(abs(m.M(z)[0]))
assert abs(r[0] - r[1]) < 1e-6*abs(r[0]), r
''', 'a column cut from the left, just beyond full contact (short resting part)', 'restoring moment of the resting part')

bug('c05-long-columns', 'C05',
    [(EG, '''                np.exp(self.ewC.real*(x + l*self.sC))*(
                       self.evC.imag*np.cos(self.ewC.imag*x)''', '''                np.exp(self.ewC.real*x)*(
                       self.evC.imag*np.cos(self.ewC.imag*x)''')],
    '''
m = weac.Layered(system='skier', layers=[[200, 50]])
m.set_foundation_properties(t=5, E=1.0, update=True)
s = m.calc_segments(L=3e5, a=500, m=80, phi=30)['crack']
C = m.assemble_and_solve(phi=30, **s)
z = m.z(s['li'][1], C[:, [1]], s['li'][1], 30, bed=False)
s2 = m.calc_segments(L=3e4, a=500, m=80, phi=30)['crack']
C2 = m.assemble_and_solve(phi=30, **s2)
z2 = m.z(s2['li'][1], C2[:, [1]], s2['li'][1], 30, bed=False)
assert np.all(np.isfinite(z)) and abs(m.w(z)[0] - m.w(z2)[0]) < 1e-6*abs(m.w(z2)[0]), (z, z2)
''', 'segments much longer than the decay length', 'numerical robustness of the fundamental system')

bug('c05-nearly-real', 'C05',
    [(EG, "real = (ew.imag == 0) & (ew.real != 0)  # real eigenvalues", "real = (abs(ew.imag) <= 0.02*abs(ew)) & (ew.real != 0)  # real eigenvalues"),
     (EG, "cmplx = ew.imag > 0                   # positive complex conjugates", "cmplx = ew.imag > 0.02*abs(ew)        # positive complex conjugates")],
    '''
# search for a slab close to the transition between complex and real eigenvalues
def model(E):
    m = weac.Layered(system='pst-', layers=[[100, 700]])
    m.set_foundation_properties(t=1, E=E, update=True)
    return m
lo, hi = 1e-4, 100.0
f = lambda E: np.max(np.abs(np.linalg.eigvals(model(E).calc_system_matrix()).imag)) > 0
assert f(lo) and not f(hi)
for _ in range(60):
    mid = np.sqrt(lo*hi)
    lo, hi = (mid, hi) if f(mid) else (lo, mid)
m = model(lo*(1 - 1e-4))
ew = np.linalg.eigvals(m.calc_system_matrix())
assert np.any(ew.imag != 0)
s = m.calc_segments(L=5e3, a=500, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
z = m.z(np.linspace(0, 4500, 2001), C[:, [0]], 4500.0, 10)
k = np.gradient(m.w(z), np.linspace(0, 4500, 2001))
assert np.max(np.abs(k - m.dw_dx(z))[1:-1]) < 1e-2*np.max(np.abs(m.dw_dx(z))), 'w and its derivative'
assert np.all(np.isfinite(z))
''', 'a slab and weak layer whose eigenvalues are nearly real', 'classification of eigenvalues')

bug('c06-load-at-empty-segment', 'C06',
    [(M, "            Fn, Ft = self.get_skier_load(m, phi)", "            Fn, Ft = self.get_skier_load(m if li[i] > 0 else 0, phi)")],
    '''
m = weac.Layered(system='skier')
r = []
for a in (0, 1e-6):
    s = m.calc_segments(L=2e4, a=a, m=100, phi=0)['nocrack']
    C = m.assemble_and_solve(phi=0, **s)
    r.append(m.w(m.z(s['li'][0], C[:, [0]], s['li'][0], 0))[0])
assert abs(r[0] - r[1]) < 1e-6*abs(r[1]), r
''', 'a skier on an uncut slab (zero-length segments)', 'skier load next to a zero-length segment')

bug('c07-left-spring-sign', 'C07',
    [(M, "bc = np.array([self.N(z), self.M(z) - kR * self.psi(z), self.w(z)])", "bc = np.array([self.N(z), self.M(z) + kR * self.psi(z), self.w(z)])")],
    '''
r = []
for system in ('pst-', '-pst'):
    m = weac.Layered(system=system, layers=[[200, 300]], touchdown=True)
    m.set_foundation_properties(t=20, E=0.2, update=True)
    s = m.calc_segments(L=30e3, a=12e3, phi=0)['crack']
    assert m.mode == 'C'
    r.append(m.gdif(m.assemble_and_solve(phi=0, **s), 0, **s)[0])
assert abs(r[0] - r[1]) < 1e-6*abs(r[0]), r
''', 'a column cut from the left in touchdown stage C', 'sign of the restoring moment')

bug('c08-steep-friction', 'C08',
    [(EG, "Ft = -F*np.sin(phi)                     # Tangential skier load (N)", "Ft = -F*np.clip(np.sin(phi), -.75, .75) # Tangential skier load (N)")],
    '''
m = weac.Layered()
assert abs(m.get_skier_load(100, 60)[1] + 0.981*np.sin(np.pi/3)) < 1e-9
''', 'slopes steeper than 48 degrees with a skier', 'tangential skier load is not resolved with the sine')

bug('c09-split-left-column', 'C09',
    [(M, "        if nct > 1:\n            avgmask", "        if ntr > 1:\n            avgmask")],
    '''
m = weac.Layered(system='-pst')
m.calc_segments(L=4e3, a=800, phi=20)
r = []
for li, ki in (([800., 3200.], [False, True]), ([800., 1200., 2000.], [False, True, True])):
    s = {'li': np.array(li), 'mi': np.zeros(len(li) - 1), 'ki': np.array(ki)}
    C = m.assemble_and_solve(phi=20, **s)
    r.append(m.gdif(C, 20, **s)[0])
assert abs(r[0] - r[1]) < 1e-8*r[0], r
''', 'a column cut from the left whose supported part is split', 'weight of a single crack tip')

bug('c10-short-segments', 'C10',
    [(M, 'nq = np.ceil(li / li.sum() * num).astype("int")', 'nq = np.rint(li / li.sum() * num).astype("int")')],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[6e3, 5.0, 6e3], mi=[80, 80], ki=[True, True, True], k0=[True]*3, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
x, z, xb = m.rasterize_solution(C=C, phi=10, **s)
for v in (0, 6000, 6005, 12005):
    assert np.sum(np.abs(x - v) < 1e-9) == 1, v
''', 'a segment that is short compared to the grid spacing', 'boundaries of short segments are missing from the grid')

bug('c12-first-segment', 'C12',
    [(M, "z0 = partial(self.z, C=C0[:, [j]], l=l, phi=phi, bed=True)", "z0 = partial(self.z, C=C0[:, [0]], l=li[0], phi=phi, bed=True)")],
    '''
m = weac.Layered(system='skiers')
g = m.calc_segments(li=[8e3, 200., 300., 300., 8e3], mi=[0, 0, 100, 0], ki=[True, False, True, False, True], k0=[True]*5, phi=20)
C0, C1 = (m.assemble_and_solve(phi=20, **g[k]) for k in ('nocrack', 'crack'))
from scipy.integrate import quad
tot = 0
for j in (1, 3):
    l = g['both']['li'][j]
    f = lambda x: m.sig(m.z(x, C0[:, [j]], l, 20))[0]*-m.w(m.z(x, C1[:, [j]], l, 20, bed=False))[0]
    tot += quad(f, 0, l)[0]
got = m.ginc(C0, C1, 20, **g['both'])[1]
assert abs(got - tot/(2*500)) < 2e-2*got, (got, tot/1000)
''', 'several new cracks (or a crack made of several segments) in an asymmetric stress field', 'uncracked solution of other cracks')

bug('c13-coupled-surface-load', 'C13',
    [(EG, "               + 2*self.B11*(qt + pt))/(2*self.K0)]", "               + 2*self.B11*qt)/(2*self.K0)]")],
    '''
m = weac.Layered(system='skier', layers=[[150, 100], [350, 100]])
m.set_surface_load(0.02)
s = m.calc_segments(L=1e4, a=0, m=100, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
z = m.z(np.array([20., 100., 300.]), C[:, [3]], s['li'][3], 35)
T = m.Txz(z, 35, dz=1, unit='MPa')
assert np.max(np.abs(T[-1] - m.tau(z))) < 1e-2*np.max(np.abs(m.tau(z))), (T[-1], m.tau(z))
''', 'a layered slab with surface load on a slope', 'shear stress at the bottom of the slab')

bug('c14-mixed-units', 'C14',
    [(M, "Szz = self.Szz(Z=Z, phi=phi, dz=dz, unit=unit)", "Szz = self.Szz(Z=Z, phi=phi, dz=dz)")],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=1e4, a=0, m=100, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
z = m.z(np.array([20., 100., 300.]), C[:, [3]], s['li'][3], 35)
a, b = m.principal_stress_slab(z, 35), m.principal_stress_slab(z, 35, unit='MPa')
assert np.max(np.abs(a - 1e3*b)) < 1e-9*np.max(np.abs(a))
''', 'principal stresses in MPa', 'transverse stress in another unit')

bug('c15-inplace-positions', 'C15',
    [(M, '''        x = x / 10
        # Cross-section rotation angle (unit)''', '''        x /= 10
        # Cross-section rotation angle (unit)''')],
    '''
m = weac.Layered(system='pst-')
s = m.calc_segments(L=3e3, a=300, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
x, z, xb = m.rasterize_solution(C=C, phi=10, **s)
y = x.copy()
m.get_slab_rotation(x, z)
assert np.array_equal(x, y)
''', 'further use of the positions after asking for rotations', 'positions passed in are modified')

bug('c16-coupled-touchdown', 'C16',
    [(M, '''        bs = -(self.B11**2 / self.A11 - self.D11)
        ss = self.kA55
        L = self.L
        a = self.a
''', '''        bs = self.D11
        ss = self.kA55
        L = self.L
        a = self.a
''')],
    '''
# continuity of the touchdown length with subdivision: reversed layering has the same bending stiffness
m = weac.Layered(system='pst-', layers=[[150, 150], [400, 150]], touchdown=True)
m.set_foundation_properties(t=20, E=0.2, update=True)
m.calc_segments(L=40e3, a=1, phi=0)
a2 = m.calc_a2()
m.calc_segments(L=40e3, a=1.3*a2, phi=0, ratio=1e-6)
assert m.mode == 'C'
assert abs(m.td - a2) < 0.02*a2, (m.td, a2)
''', 'a slab with bending-extension coupling in stage C', 'touchdown length')

bug('c17-stale-eigensystem', 'C17',
    [(M, '''            self.kn = tempkn
            self.kt = tempkt
            self.calc_system_matrix()
            self.calc_eigensystem()
''', '''            self.kn = tempkn
            self.kt = tempkt
            self.calc_system_matrix()
''')],
    '''
m = weac.Layered(system='pst-', layers=[[200, 300]], touchdown=True)
m.calc_segments(L=1e4, a=100, phi=0)
a = m.ewC.copy()
m.substitute_stiffness(1000, 'rested', 'rot')
assert np.array_equal(a, m.ewC)
''', 'any solution after the stiffness of a resting part was computed', 'eigenvalues remain those of the collapsed layer')

bug('c18-spring-cache', 'C18',
    [(M, '''        # adjust system to substitute system
        if dof in ["rot"]:''', '''        # springs are needed repeatedly in root finding
        key = (L, support, dof, self.ratio, self.kn, self.kt, self.h, self.A11, self.D11)
        if key in _springs:
            return _springs[key]

        # adjust system to substitute system
        if dof in ["rot"]:'''),
     (M, '''            self.calc_system_matrix()
            self.calc_eigensystem()

        return k''', '''            self.calc_system_matrix()
            self.calc_eigensystem()

        _springs[key] = k
        return k'''),
     (M, 'class SlabContactMixin:', '_springs = {}\n\n\nclass SlabContactMixin:')],
    '''
a = weac.Layered(layers=[[100, 150], [450, 150]])
b = weac.Layered(layers=[[450, 150], [100, 150]])
x = [m.substitute_stiffness(500, 'supported', 'rot') for m in (a, b)]
assert x[0] != x[1]
''', 'two slabs of reversed layering in one session', 'springs are remembered for a key that omits the coupling stiffness')

bug('c18-eigensystem-cache', 'C18',
    [(EG, '''        # Calculate eigenvalues (ew) and eigenvectors (ev)
        ew, ev = np.linalg.eig(self.calc_system_matrix())
''', '''        # Calculate eigenvalues (ew) and eigenvectors (ev)
        key = (self.kn, self.kt, self.h, self.A11, self.D11, self.kA55)
        if getattr(self, '_key', None) != key:
            self._eig = np.linalg.eig(self.calc_system_matrix())
            self._key = key
        ew, ev = self._eig
''')],
    '''
a = weac.Layered(layers=[[100, 150], [450, 150]])
a.set_beam_properties([[450, 150], [100, 150]], update=True)
b = weac.Layered(layers=[[450, 150], [100, 150]])
assert np.allclose(np.sort(a.ewR), np.sort(b.ewR), rtol=1e-9) and np.allclose(np.abs(a.ewC), np.abs(b.ewC), rtol=1e-9)
''', 'reversal of the layering of an existing model', 'eigensystem of the previous layering')

bug('c19-short-column', 'C19',
    [(T, "    touchdown.calc_segments(L=1e5, a=0, phi=phi)", "    touchdown.calc_segments(L=1e4, a=0, phi=phi)")],
    '''
lay = [[400, 1000]]
got = weac.tools.touchdown_distance(lay, t=40, Ewl=0.1)
m = weac.Layered(system='pst-', layers=lay, touchdown=True)
m.set_foundation_properties(t=40, E=0.1, update=True)
m.calc_segments(L=1e5, a=0, phi=0)
assert abs(m.calc_a2() - got[1]) < 1e-3*got[1], (m.calc_a2(), got)
''', 'thick, stiff slabs with long touchdown distances', 'cut lengths of stiff slabs')

bug('c20-soft-weak-layer', 'C20',
    [(I, "self.set_foundation_properties(E=Eweak)", "self.set_foundation_properties(E=max(Eweak, 0.05))")],
    '''
m = weac.Inverse(parameters=(6.0, 4.6, 0.02))
assert m.weak['E'] == 0.02
''', 'a weak-layer modulus below 0.05 MPa', 'soft weak layers')

bug('c21-one-free-end', 'C21',
    [(M, "if not all([ki[0], ki[-1]]):", "if not any([ki[0], ki[-1]]):")],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[6e3, 6e3], mi=[80], ki=[True, False], k0=[True, True], phi=10)['crack']
try:
    m.assemble_and_solve(phi=10, **s)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', 'a skier system with one unsupported end', 'unsupported end segment accepted')

bug('c22-left-vertical-outline', 'C22',
    [(P, "    if instance.system in ['-pst', 'pst-', '-vpst', 'vpst-']:", "    if instance.system in ['-pst', 'pst-', 'vpst-']:")],
    '''
import os, tempfile
os.chdir(tempfile.mkdtemp())
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt, weac.plot
n = []
plot = plt.plot
close = plt.close
for system in ('-pst', '-vpst'):
    m = weac.Layered(system=system)
    s = m.calc_segments(L=2e3, a=300, phi=10)['crack']
    C = m.assemble_and_solve(phi=10, **s)
    x, z, xb = m.rasterize_solution(C=C, phi=10, num=30, **s)
    k = [0]
    plt.close = lambda *a: (k.__setitem__(0, len(plt.gcf().axes[0].lines)), close('all'))
    weac.plot.deformed(m, x, xb, z, 10, dz=20, field='w')
    n.append(k[0])
assert n[0] == n[1], n
''', 'contour plots of columns with vertical faces cut from the left', 'outline of the weak layer is missing')

bug('c23-left-resting-work', 'C23',
    [(M, "            ub = us[0]\n", "            ub = us[-1]\n")],
    '''
r = []
for system, phi in (('pst-', 30), ('-pst', -30)):
    m = weac.Layered(system=system, layers=[[200, 300]], touchdown=True)
    m.set_foundation_properties(t=20, E=0.2, update=True)
    s = m.calc_segments(L=30e3, a=12e3, phi=phi)['crack']
    assert m.mode == 'C'
    C = m.assemble_and_solve(phi=phi, **s)
    r.append(m.external_potential(C, phi, 30e3, **s))
assert abs(r[0] - r[1]) < 1e-6*abs(r[0]), r
''', 'a column cut from the left in stage C on a slope', 'work of the tangential load on the resting part')

bug('c24-layer-centroid', 'C24',
    [(T, "zsi = zi + hi / 3 * (3 / 2 * H - zi - 2 * zii) / (H - zi - zii)", "zsi = zi + hi / 3 * (3 / 2 * H - zi - 2 * zii) / (H - zi - zii) if n < 3 else zi + hi / 2")],
    '''
s = np.array([[200, 100, 1, 1, .2]]*3, dtype=float)
t = np.array([[200, 300, 1, 1, .2]], dtype=float)
a, b = (weac.tools.calc_vertical_bc_center_of_gravity(v, 30) for v in (s, t))
assert np.allclose(a, b, rtol=1e-9), (a, b)
''', 'three or more layers', 'centroid of the layers of the wedge')

bug('c25-shared-profiles', 'C25',
    [(T, "def load_dummy_profile(profile_id):", "def load_dummy_profile(profile_id, _loaded={}):"),
     (T, "        profile = np.array(database[profile_id.lower()])\n", "        profile = _loaded.setdefault(profile_id.lower(), np.array(database[profile_id.lower()]))\n")],
    '''
a, E = weac.tools.load_dummy_profile('a')
a[0, 0] = 1.0
assert weac.tools.load_dummy_profile('a')[0][0, 0] == 350
''', 'a caller that modifies the returned profile', 'database entries are shared between calls')

bug('c26-coarse-mesh', 'C26',
    [(M, "nlayer = np.ceil((z[1:] - z[:-1]) / dz).astype(np.int32) + 1", "nlayer = np.ceil((z[1:] - z[:-1]) / dz - 0.05).astype(np.int32) + 1")],
    '''
m = weac.Layered(layers=[[200, 201], [250, 99]])
z = m.get_zmesh(dz=50)[:, 0]
assert np.max(np.diff(z)) <= 50 + 1e-9, z
''', 'a layer slightly thicker than a multiple of the mesh size', 'spacing exceeds the mesh size')

bug('c27-fractional-lengths', 'C27',
    [(M, "            li = np.array(li)  # Segment lengths\n", "            li = np.array(li, dtype=int)  # Segment lengths\n")],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[6000.5, 6000.25], mi=[80], ki=[True, True], k0=[True, True], phi=10)['crack']
assert list(s['li']) == [6000.5, 6000.25]
''', 'fractional segment lengths', 'lengths are truncated to millimetres')

bug('c28-digits-of-fractions', 'C28',
    [(P, "return -int(np.floor(np.log10(decimal)))", "return -int(np.log10(decimal))")],
    '''
import weac.plot
assert weac.plot.significant_digits(0.05) == 2
''', 'numbers below one that are no powers of ten', 'decimal exponent of fractions')

bug('c29-uniform-shift', 'C29',
    [(EG, "                    + h*pt*(2*h + t)/(4*kA55)],", "                    + h*pt*(2*h)/(4*kA55)],")],
    '''
m = weac.Layered(system='skier')
m.set_surface_load(0.02)
m.calc_segments(phi=30)
z = m.zp(0, 30)
q = m.get_weight_load(30)[1] + m.get_surface_load(30)[1]
assert abs(m.tau(z)[0] - q) < 1e-9*abs(q), (m.tau(z), q)
''', 'a surface load on a slope', 'shear stress of the uniform slab')
