M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('d26-many-points', 'C26',
    [(M, "nlayer = np.ceil((z[1:] - z[:-1]) / dz).astype(np.int32) + 1", "nlayer = np.ceil((z[1:] - z[:-1]) / dz).astype(np.uint8) + 1")],
    '''
m = weac.Layered(layers=[[200, 300], [250, 100]])
assert len(m.get_zmesh(dz=1)) == 301 + 101
''', 'a layer of more than 255 elements', 'number of points wraps around')

bug('d26-mesh-cache', 'C26',
    [(M, '''        # Get ply (layer) coordinates
        z = self.get_ply_coordinates()
''', '''        # Meshes are needed by every stress component
        key = (dz, len(self.slab), self.h, self.zs)
        cache = AnalysisMixin._meshes
        if key in cache:
            return cache[key]

        # Get ply (layer) coordinates
        z = self.get_ply_coordinates()
'''), (M, "        return np.column_stack([zi, si])\n", "        cache[key] = np.column_stack([zi, si])\n        return cache[key]\n"),
     (M, '''    Provides methods for the analysis of layered slabs on compliant
    elastic foundations.
    """
''', '''    Provides methods for the analysis of layered slabs on compliant
    elastic foundations.
    """

    _meshes = {}
''')],
    '''
a = weac.Layered(layers=[[200, 200]])
a.get_zmesh()
b = weac.Layered(layers=[[300, 200]])
assert np.all(b.get_zmesh()[:, 3] == 300)
''', 'two homogeneous slabs of the same thickness and different density in one session', 'properties of another slab')

bug('d11-one-free-end', 'C11',
    [(M, "avgmask[[0, -1]] = ki[[0, -1]]  # Do not weight edge cracks", "avgmask[[0, -1]] = all(ki[[0, -1]])  # Do not weight edge cracks")],
    '''
m = weac.Layered(system='pst-')
li, ki = np.array([4000., 300., 4000., 200.]), np.array([True, False, True, False])
m.calc_segments(L=8500, a=200, phi=0)
C = m.assemble_and_solve(phi=0, li=li, mi=np.zeros(3), ki=ki)
G = [m.Gi(m.z(x, C[:, [j]], li[j], 0), unit='kJ/m^2')[0] for x, j in ((li[0], 0), (0, 2), (li[2], 2))]
got = m.gdif(C, 0, li, ki)[1]
want = 0.5*G[0] + 0.5*G[1] + G[2]
assert abs(got - want) < 1e-9*want, (got, want)
''', 'an edge crack at one end together with a crack inside', 'weight of the crack tips inside')

bug('d12-fixed-points', 'C12',
    [(M, "            Ginc1 += quad(int1, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)\n            Ginc2 += quad(int2, 0, l, epsabs=self.tol, epsrel=self.tol)[0] / (2 * da)\n",
      '''            xg, wg = np.polynomial.legendre.leggauss(10)
            Ginc1 += sum(w * int1(l * (x + 1) / 2) for x, w in zip(xg, wg)) * l / (4 * da)
            Ginc2 += sum(w * int2(l * (x + 1) / 2) for x, w in zip(xg, wg)) * l / (4 * da)
''')],
    '''
from scipy.integrate import quad
m = weac.Layered(system='skiers', layers=[[150, 60]])
m.set_foundation_properties(E=2, t=5, update=True)
g = m.calc_segments(li=[6e3, 1500., 1500., 6e3], mi=[0, 300., 0], ki=[True, False, False, True], k0=[True]*4, phi=0)
C0, C1 = (m.assemble_and_solve(phi=0, **g[k]) for k in ('nocrack', 'crack'))
want = 0
for j in (1, 2):
    f = lambda x: m.sig(m.z(x, C0[:, [j]], 1500., 0))[0]*-m.w(m.z(x, C1[:, [j]], 1500., 0, bed=False))[0]
    want += sum(quad(f, a, a + 50, epsabs=0, limit=200)[0] for a in range(0, 1500, 50))/(2*3e3)
got = m.ginc(C0, C1, 0, **g['both'])[1]
assert abs(got - want) < 2e-2*abs(want), (got, want)
''', 'a long new crack with localised stress', 'integration points miss the stress peak')

bug('d04-contact-surface-load', 'C04',
    [(M, "                N = self.calc_qt() * (self.a - self.td)\n", "                N = self.get_weight_load(phi)[1] * (self.a - self.td)\n")],
    '''
m = weac.Layered(system='pst-', layers=[[200, 300]], touchdown=True)
m.set_foundation_properties(t=20, E=0.2, update=True)
m.set_surface_load(0.002)
s = m.calc_segments(L=40e3, a=15e3, phi=30)['crack']
assert m.mode == 'C'
C = m.assemble_and_solve(phi=30, **s)
z = m.z(s['li'][1], C[:, [1]], s['li'][1], 30, bed=False)
want = m.calc_qt()*(m.a - m.td)
assert abs(m.N(z)[0] - want) < 1e-6*abs(want), (m.N(z), want)
''', 'surface load on a slope with slab resting on the ground', 'friction-free resting part does not carry its surface load')

bug('d18-wedge-cache', 'C18',
    [(T, '''    # Convert slope angle to radians
    phi = np.deg2rad(phi)

    # Catch flat-field case
''', '''    key = (phi, len(slab), slab[:, 0].sum(), slab[:, 1].sum())
    if key in _wedges:
        return _wedges[key]

    # Convert slope angle to radians
    phi = np.deg2rad(phi)

    # Catch flat-field case
'''), (T, '''    # Return center of gravity and weight of slab segment
    return xs, zs, w
''', '''    # Return center of gravity and weight of slab segment
    _wedges[key] = xs, zs, w
    return xs, zs, w
'''), (T, '''def calc_vertical_bc_center_of_gravity(''', '''_wedges = {}


def calc_vertical_bc_center_of_gravity(''')],
    '''
from weac.tools import calc_vertical_bc_center_of_gravity as f
a = np.array([[100., 100], [300, 100]])
u, v = f(a, 30), f(a[::-1], 30)
assert abs(u[2] - v[2]) > 1e-3*u[2], (u, v)
''', 'slabs of reversed layering with vertical faces in one session', 'wedge of another slab')

bug('d16-collapse-surface-load', 'C16',
    [(M, "        # subtract displacement under constact load from collapsed wl height\n        qn = self.calc_qn()\n",
      "        # subtract displacement under constact load from collapsed wl height\n        qn = self.get_weight_load(self.phi)[0]\n")],
    '''
m = weac.Layered(system='pst-', touchdown=True)
m.set_foundation_properties(t=10, E=0.1, update=True)
m.set_surface_load(0.005)
m.calc_segments(L=1e4, a=100, phi=20)
w0 = (m.get_weight_load(20)[0] + m.get_surface_load(20)[0])/m.kn
assert abs(m.tc - (5 - w0)) < 1e-9, (m.tc, w0)
''', 'surface load', 'settlement before collapse')

bug('d23-left-contact-work', 'C23',
    [(M, "            - qn * (L - (segments[\"li\"][0] + segments[\"li\"][1])) * self.tc\n", "            - qn * (L - (segments[\"li\"][0] + segments[\"li\"][1])) * w0[-1]\n")],
    '''
r = []
for system in ('pst-', '-pst'):
    m = weac.Layered(system=system, layers=[[200, 300]], touchdown=True)
    m.set_foundation_properties(t=20, E=0.2, update=True)
    s = m.calc_segments(L=40e3, a=15e3, phi=0)['crack']
    C = m.assemble_and_solve(phi=0, **s)
    r.append(m.external_potential(C, 0, 40e3, **s))
assert abs(r[0] - r[1]) < 1e-3*abs(r[0]), r
''', 'a column cut from the left whose slab rests on the ground', 'work of the resting part')

bug('d13-stored-slope', 'C13',
    [(M, "        # Calculate weight load at grid points\n        qn = rho * self.g * np.cos(np.deg2rad(phi))\n", "        # Calculate weight load at grid points\n        qn = rho * self.g * np.cos(np.deg2rad(self.phi))\n")],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=1e4, a=0, m=0, phi=45)['crack']
s = {k: v for k, v in s.items()}
C = m.assemble_and_solve(phi=0, **s)
z = m.z(np.array([100.]), C[:, [3]], s['li'][3], 0)
S = m.Szz(z, 0, unit='MPa')
assert abs(S[-1, 0] - m.sig(z)[0]) < 1e-6*abs(m.sig(z)[0]), (S[-1], m.sig(z))
''', 'evaluation at an inclination other than that of the last segment set-up', 'normal stress under the stored inclination')

bug('d27-touchdown-vertical', 'C27',
    [(M, '            li = np.array([L - a, a])  # Segment lengths\n', '            li = np.array([L - a, self.td if self.touchdown else a])  # Segment lengths\n')],
    '''
m = weac.Layered(system='vpst-', layers=[[200, 200]], touchdown=True)
m.set_foundation_properties(t=10, E=0.2, update=True)
s = m.calc_segments(L=30e3, a=15e3, phi=10)['crack']
assert np.allclose(s['li'], [15e3, 15e3]), s
''', 'a column with vertical faces, contact enabled, and a long cut', 'length of the unsupported segment')

bug('d22-dark-style', 'C22',
    [(P, '''    # Save figure
    save_plot(name=filename)

    # Clear Canvas
    plt.close()

    # Reset plot styles
    plt.rcdefaults()
''', '''    # Save figure
    save_plot(name=filename)

    # Clear Canvas
    plt.close()

    # Reset plot styles
    if not dark:
        plt.rcdefaults()
''')],
    '''
import matplotlib
import weac.plot
m = weac.Layered(system='skier')
s = m.calc_segments(L=1e4, a=100, m=80)['crack']
C = m.assemble_and_solve(phi=0, **s)
x, z, xb = m.rasterize_solution(C, 0, num=50, **s)
weac.plot.deformed(m, x, xb, z, 0, dz=20, dark=True)
assert matplotlib.rcParams['figure.facecolor'] == matplotlib.rcParamsDefault['figure.facecolor']
''', 'a plot on dark background', 'dark style leaks into other figures')

bug('d25-profile-case', 'C25',
    [(T, "profile = np.array(database[profile_id.lower()])", "profile = np.array(database[profile_id.strip()])")],
    '''
from weac.tools import load_dummy_profile as f
assert np.array_equal(f('A')[0], f('a')[0])
''', 'upper-case profile name', 'profile not found')

bug('d17-spring-slope', 'C17',
    [(M, "        _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)\n", "        _, z_pst, _ = self.rasterize_solution(C=constants, phi=self.phi, num=1, **segments)\n")],
    '''
m = weac.Layered(system='pst-', layers=[[150, 100], [350, 100]], touchdown=True)
k = []
for phi in (0, 40):
    m.calc_segments(L=1e4, a=100, phi=phi)
    k.append([m.substitute_stiffness(3000, 'supported', d) for d in ('rot', 'trans')])
assert np.allclose(k[0], k[1], rtol=1e-6), k
''', 'a slope', 'springs depend on the inclination')

bug('d24-negative-slope', 'C24',
    [(T, "        Ai = hi / 2 * (H - zi - zii) * np.tan(phi)\n", "        Ai = hi / 2 * (H - zi - zii) * np.abs(np.tan(phi))\n")],
    '''
from weac.tools import calc_vertical_bc_center_of_gravity as f
a = np.array([[100., 100], [300, 100]])
assert f(a, -30)[2] == -f(a, 30)[2]
''', 'negative inclination', 'sign of the mass of the wedge')

bug('d18-touchdown-off', 'C18',
    [(M, '''            self.mode = mode
        else:
            self.mode = "A"
''', '''            self.mode = mode
        elif not self.mode:
            self.mode = "A"
''')],
    '''
m = weac.Layered(system='pst-', layers=[[200, 300]], touchdown=True)
m.set_foundation_properties(t=20, E=0.2, update=True)
m.calc_segments(L=40e3, a=15e3)
m.touchdown = False
s = m.calc_segments(L=40e3, a=15e3)['crack']
assert s['li'][1] == 15e3, s
''', 'contact switched off after a computation with contact', 'stage of the previous computation remains')

bug('d05-many-segments', 'C05',
    [(M, '        pi = np.full(nS, "m")\n        pi[0], pi[-1] = "l", "r"\n', '        pi = (["l"] + ["m", "m", "m", "m", "m", "m"] + ["r"] * nS)[:nS]\n        pi[-1] = "r"\n')],
    '''
m = weac.Layered(system='skiers')
n = 10
li, mi = [6e3] + [500.]*(n - 2) + [6e3], [0]*(n - 2) + [80]
s = m.calc_segments(li=li, mi=mi, ki=[True]*n, k0=[True]*n, phi=20)['crack']
C = m.assemble_and_solve(phi=20, **s)
for j in range(n - 1):
    a, b = (m.z(x, C[:, [i]], li[i], 20) for x, i in ((li[j], j), (0, j + 1)))
    assert abs(m.u(a, 0) - m.u(b, 0)) < 1e-6, j
''', 'more than eight segments', 'transition conditions of further segments')

bug('d03-plain-sequence', 'C03',
    [(EG, "        if isinstance(x, (list, tuple, np.ndarray)):\n", "        if isinstance(x, (list, np.ndarray)):\n")],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=1e4, a=0, m=100, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
a, b = (m.z(x, C[:, [3]], s['li'][3], 35) for x in ((10., 20.), [10., 20.]))
assert a.shape == b.shape and np.array_equal(a, b)
''', 'positions given as a tuple', 'solution at tuples of positions')

bug('d09-merge-segments', 'C09',
    [(M, '''        # Determine size of linear system of equations
        nS = nSeg = len(li)''', '''        # Treat extremely short segments as points
        li = np.where(np.asarray(li) < 1, 0, li)

        # Determine size of linear system of equations
        nS = nSeg = len(li)''')],
    '''
m = weac.Layered(system='skiers')
li, n = [6e3, 0.9, 6e3], 3
s = m.calc_segments(li=li, mi=[0, 100], ki=[True]*3, k0=[True]*3, phi=20)['crack']
C = m.assemble_and_solve(phi=20, **s)
a, b = m.z(0.9, C[:, [1]], 0.9, 20), m.z(0, C[:, [2]], 6e3, 20)
assert abs(m.w(a) - m.w(b))[0] < 1e-9, (m.w(a), m.w(b))
''', 'segments shorter than one millimetre', 'their length is ignored in the solution')

bug('d28-grey-levels', 'C28',
    [(P, "    return colorsys.hls_to_rgb(c[0], max(0, min(1, amount * c[1])), c[2])\n", "    return colorsys.hls_to_rgb(c[0], max(0, min(1, amount * c[1])), c[2] or c[1])\n")],
    '''
from weac.plot import adjust_lightness as f
assert np.allclose(f('0.4', 0.5), (0.2, 0.2, 0.2)), f('0.4', 0.5)
''', 'a grey', 'greys get a hue')

bug('d10-last-segment', 'C10',
    [(M, "xi = np.linspace(0, l, num=nq[i], endpoint=(i == li.size - 1))", "xi = np.linspace(0, l, num=nq[i], endpoint=(l == li[-1]))")],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[6e3, 5e3, 6e3], mi=[0, 80], ki=[True, True, True], k0=[True]*3, phi=10)['crack']
C = m.assemble_and_solve(phi=10, **s)
x, z, xb = m.rasterize_solution(C=C, phi=10, **s)
assert np.all(np.diff(x) > 0)
''', 'an inner segment of the same length as the last one', 'positions occur twice')

bug('d29-system-after', 'C18',
    [(M, '''        # Reset to previous system and eigensystem
        self.system = tempsys
''', '''        # Reset to previous system and eigensystem
        self.system = "pst-" if tempsys in ["pst-", "vpst-"] else tempsys
''')],
    '''
m = weac.Layered(system='vpst-')
m.calc_segments(L=1e4, a=100, phi=20)
m.substitute_stiffness(1000, 'rested', 'rot')
assert m.system == 'vpst-', m.system
''', 'springs of a column with vertical faces', 'type of the column afterwards')

bug('d08-heavy', 'C08',
    [(EG, "        F = 1e-3*np.array(m)*self.g/self.lski   # Total skier load (N)\n", "        F = np.float16(1e-3*np.array(m))*self.g/self.lski   # Total skier load (N)\n")],
    '''
m = weac.Layered()
a, b = m.get_skier_load(77.7, 0)[0], m.get_skier_load(777, 0)[0]
assert abs(10*a - b) < 1e-9*b
''', 'masses without short binary representation', 'rounded loads')

bug('d21-negative-index', 'C21',
    [(M, '''        if len(li) != len(ki) or len(li) - 1 != len(mi):
''', '''        if len(li) > len(ki) or len(li) - 1 > len(mi):
''')],
    '''
m = weac.Layered(system='skiers')
try:
    m.assemble_and_solve(0, np.array([6e3, 6e3]), np.array([0]), np.array([True, True, True]))
except ValueError:
    pass
else:
    raise AssertionError
''', 'superfluous entries', 'mismatching lists accepted')
