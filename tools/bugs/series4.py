"""Fourth series of planted bugs."""
M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('e01-named-poisson', 'C01',
    [(EG, "            layers, E = load_dummy_profile(layers.split()[-1])\n", "            layers, E = load_dummy_profile(layers.split()[-1])\n            G = E/(2*(1 + 0.25))\n"),
     (EG, "            E = bergfeld(layers[:, 0], C0=C0, C1=C1)  # Young's modulus\n", "            E = bergfeld(layers[:, 0], C0=C0, C1=C1)  # Young's modulus\n            G = E/(2*(1 + nu))\n"),
     (EG, "        G = E/(2*(1 + nu))                       # Shear modulus\n", "")],
    '''
m = weac.Layered()
m.set_beam_properties('a', nu=0.1, update=True)
E = m.slab[:, 2]
assert np.allclose(m.slab[:, 3], E/2.2), m.slab
''', 'a named profile with a Poisson ratio other than 0.25', 'shear modulus')

bug('e02-cached-weight', 'C02',
    [(EG, "        q = sum(rho*self.g*self.slab[:, 1])     # Line load (N/mm)\n",
      "        if self.q is None:\n            self.q = sum(rho*self.g*self.slab[:, 1])    # Line load (N/mm)\n        q = self.q\n"),
     (EG, "        self.p = 0                  # Surface line load (N/mm)\n", "        self.p = 0                  # Surface line load (N/mm)\n        self.q = None               # Weight of the slab (N/mm)\n"),
     (EG, "        self.slab = np.vstack([layers.T, E, G, nu]).T\n", "        self.slab = np.vstack([layers.T, E, G, nu]).T\n        self.q = None\n")],
    '''
m = weac.Layered()
a = m.get_weight_load(20)[0]
m.g = 2*m.g
assert abs(m.get_weight_load(20)[0] - 2*a) < 1e-12
''', 'gravity changed after the weight was used', 'weight of the old gravity')

bug('e04-vertical-skier', 'C04',
    [(M, '''            # Convert slope angle to radians
            phi = np.deg2rad(phi)
            # Translate inbto section forces and moments
            N = -self.g * m * np.sin(phi)
            M = -self.g * m * (xs * np.cos(phi) + zs * np.sin(phi))
            V = self.g * m * np.cos(phi)
''', '''            # Translate inbto section forces and moments
            Q = np.deg2rad(phi)
            N = -self.g * m * np.sin(Q)
            M = -self.g * m * (xs * np.cos(Q) + zs * np.sin(Q))
            V = self.g * m * np.cos(Q)
'''), (M, '''            Fn, Ft = self.get_skier_load(m, phi)
''', '''            Fn, Ft = self.get_skier_load(m, phi if self.system[-1:] != "-" else abs(phi))
''')],
    '''
m = weac.Layered(system='vpst-')
li, ki, mi = np.array([2000., 2000.]), np.array([True, True]), np.array([80])
m.calc_segments(L=4000, a=0, phi=-30)
C = m.assemble_and_solve(phi=-30, li=li, mi=mi, ki=ki)
a, b = m.z(2000., C[:, [0]], 2000., -30), m.z(0., C[:, [1]], 2000., -30)
jump = m.N(a)[0] - m.N(b)[0]
assert abs(jump - m.get_skier_load(80, -30)[1]) < 1e-9, jump
''', 'a point load on a column cut from the right on a negative slope', 'tangential point load')

bug('e06-skier-before-gap', 'C06',
    [(M, '''        for i, m in enumerate(mi, start=1):
            # Get skier loads
''', '''        for i, m in enumerate(mi, start=1):
            if li[i] == 0:
                continue
            # Get skier loads
''')],
    '''
m = weac.Layered(system='skiers')
s = m.calc_segments(li=[6000., 0., 6000.], mi=[80, 0], ki=[True]*3, k0=[True]*3, phi=0)['crack']
C = m.assemble_and_solve(phi=0, **s)
a, b = m.z(6000., C[:, [0]], 6000., 0), m.z(0., C[:, [2]], 6000., 0)
assert abs(m.V(a)[0] - m.V(b)[0]) > 0.1
''', 'a skier in front of a zero-length segment', 'the skier has no weight')

bug('e07-left-spring-kind', 'C07',
    [(M, '''                elif self.mode in ["C"] and pos in ["l", "left"]:
                    # Spring stiffness
                    kR = self.substitute_stiffness(self.a - self.td, "rested", "rot")
''', '''                elif self.mode in ["C"] and pos in ["l", "left"]:
                    # Spring stiffness
                    kR = self.substitute_stiffness(self.L - self.a, "rested", "rot")
''')],
    '''
w = []
for system, phi in (('pst-', 20), ('-pst', -20)):
    m = weac.Layered(system=system, layers=[[200, 300], [250, 200]], touchdown=True)
    for f in (1.02, 1.05, 1.1, 1.3):
        m.calc_segments(L=20000, a=100, phi=phi)
        a = f*m.calc_a2()
        s = m.calc_segments(L=20000, a=a, phi=phi)['crack']
        assert m.mode == 'C'
        C = m.assemble_and_solve(phi=phi, **s)
        w.append(m.rasterize_solution(C, phi, **s)[1][2])
for a, b in zip(w[:4], w[4:]):
    assert np.allclose(a, b[::-1], rtol=0, atol=1e-6*abs(a).max()), abs(a - b[::-1]).max()
''', 'stage C shortly after full contact on the left', 'spring of another length')

bug('e08-drop-constants', 'C08',
    [(M, '''        C = np.linalg.solve(zh0, rhs - zp0)
''', '''        C = np.linalg.solve(zh0, rhs - zp0)
        # Remove numerical noise
        C[np.abs(C) < 1e-8] = 0
''')],
    '''
def f(g):
    m = weac.Layered(system='pst-', layers=[[200, 200]])
    m.g = g
    s = m.calc_segments(L=3000, a=300, phi=10)['crack']
    C = m.assemble_and_solve(phi=10, **s)
    return m.rasterize_solution(C, 10, **s)[1][2]
a, b = f(9810.), f(9.81e-2)
assert np.allclose(a, 1e5*b, rtol=0, atol=1e-6*abs(a).max()), abs(a - 1e5*b).max()
''', 'small loads', 'small contributions are lost')

bug('e09-thin-sublayers', 'C09',
    [(EG, "        for i in range(len(z) - 1):\n            E, G, nu = self.slab[i, 2:5]\n", "        for i in range(len(z) - 1):\n            E, G, nu = self.slab[i, 2:5]\n            if z[i+1] - z[i] < 2e-3*self.h:\n                continue\n")],
    '''
a = weac.Layered(layers=[[200, 600]])
b = weac.Layered(layers=[[200, 1.]]*5 + [[200, 595]])
assert abs(a.A11 - b.A11) < 1e-9*a.A11
''', 'layers much thinner than the slab', 'thin layers carry nothing')

bug('e10-last-zero', 'C10',
    [(M, '''        # Drop zero-length segments
        li = abs(li)
        isnonzero = li > 0
        C, ki, li = C[:, isnonzero], ki[isnonzero], li[isnonzero]

        # Compute number of plot points per segment (+1 for last segment)
        nq = np.ceil(li / li.sum() * num).astype("int")
        nq[-1] += 1
''', '''        # Compute number of plot points per segment (+1 for last segment)
        li = abs(li)
        nq = np.ceil(li / li.sum() * num).astype("int")
        nq[-1] += 1

        # Drop zero-length segments
        isnonzero = li > 0
        C, ki, li, nq = C[:, isnonzero], ki[isnonzero], li[isnonzero], nq[isnonzero]
''')],
    '''
m = weac.Layered(system='pst-')
s = dict(li=np.array([2000., 0.]), mi=np.array([0]), ki=np.array([True, True]))
m.calc_segments(L=2000, a=0, phi=0)
C = m.assemble_and_solve(phi=0, **s)
n = []
for num in (100, 101):
    x, z, xb = m.rasterize_solution(C, 0, s['li'], s['ki'], num=num)
    assert x[-1] == 2000
    n.append(len(x))
assert n == [101, 102], n
''', 'the last segment has zero length', 'one point too few')

bug('e11-edge-and-inner', 'C11',
    [(M, "            avgmask = np.full(nct, True)  # Initialize mask\n            avgmask[[0, -1]] = ki[[0, -1]]  # Do not weight edge cracks\n",
      "            avgmask = np.full(nct, True)  # Initialize mask\n            avgmask[0], avgmask[-1] = ki[0], ki[0] and ki[-1]  # Do not weight edge cracks\n")],
    '''
m = weac.Layered(system='pst-')
li, ki = np.array([200., 4000., 300., 4000.]), np.array([False, True, False, True])
m.calc_segments(L=8500, a=200, phi=0)
C = m.assemble_and_solve(phi=0, li=li, mi=np.zeros(3), ki=ki)
G = [m.Gi(m.z(x, C[:, [j]], li[j], 0))[0] for x, j in ((0, 1), (li[1], 1), (0, 3))]
got, want = m.gdif(C, 0, li, ki)[1], G[0] + 0.5*G[1] + 0.5*G[2]
assert abs(got - want) < 1e-9*want, (got, want)
''', 'a crack at the left end together with a crack inside', 'weight of the last crack tip')

bug('e12-equal-lengths', 'C12',
    [(M, '''        # Loop through segments with crack advance
        for j, l in enumerate(li):
            # Uncracked (0) and cracked (1) solutions at integration points
            z0 = partial(self.z, C=C0[:, [j]], l=l, phi=phi, bed=True)
''', '''        # Loop through segments with crack advance
        intact = {l: partial(self.z, C=C0[:, [j]], l=l, phi=phi, bed=True) for j, l in enumerate(li)}
        for j, l in enumerate(li):
            # Uncracked (0) and cracked (1) solutions at integration points
            z0 = intact[l]
''')],
    '''
def f(l):
    m = weac.Layered(system='skiers')
    s = m.calc_segments(li=[8000., 200., 3000., l, 8000.], mi=[0, 90, 0, 0], ki=[True, False, True, False, True], k0=[True]*5, phi=20)
    C0, C1 = (m.assemble_and_solve(phi=20, **s[k]) for k in ('nocrack', 'crack'))
    return m.ginc(C0, C1, 20, **s['both'])
a, b = f(200.), f(200.001)
assert np.allclose(a, b, rtol=1e-4), (a, b)
''', 'two new cracks of equal length under different load', 'intact stress of the other crack')

bug('e13-load-vector-zs', 'C13',
    [(EG, "            [(self.B11*(self.h*pt - 2*qt*self.zs)\n", "            [(self.B11*(self.h*pt + 2*qt*self.zs)\n")],
    '''
m = weac.Layered(layers=[[100, 100], [400, 200]])
z = np.zeros((6, 1))
z[2] = 0.1
T = m.Txz(z, 30, dz=1, unit='MPa')
assert abs(T[-1, 0] - m.tau(z)[0]) < 1e-6, (T[-1], m.tau(z))
''', 'a layered slab on a slope', 'shear stress at the bottom')

bug('e14-strength-cache', 'C14',
    [(T, "    convert = {\"kPa\": 1, \"MPa\": 1e-3}\n    rho_ice = 917\n    # Sigrist's equation is given in kPa\n    return convert[unit] * 240 * (rho / rho_ice) ** 2.44\n",
      '''    convert = {"kPa": 1, "MPa": 1e-3}
    rho_ice = 917
    # Layer densities occur many times
    values, where = np.unique(np.round(rho, -1), return_inverse=True)
    # Sigrist's equation is given in kPa
    strength = convert[unit] * 240 * (values / rho_ice) ** 2.44
    return strength[where].reshape(np.shape(rho)) if np.size(rho) > 1000 else convert[unit] * 240 * (rho / rho_ice) ** 2.44
''')],
    '''
m = weac.Layered(layers=[[204, 600], [310, 500]])
z = np.array([[1e-3]]*6)
assert len(m.get_zmesh(dz=1)) > 1000
a = m.principal_stress_slab(z, 10, dz=1, normalize=True)[500]
b = m.principal_stress_slab(z, 10, dz=1)[500]
assert np.allclose(a, b/weac.tools.tensile_strength_slab(204), rtol=1e-6, atol=0), (a, b)
''', 'meshes of more than 1000 points and densities that are not multiples of 10', 'strength of a rounded density')

bug('e15-view-of-deflection', 'C15',
    [(M, "        return convert[unit] * Z[2, :]\n", "        return Z[2, :] if unit == \"mm\" else convert[unit] * Z[2, :]\n"),
     (M, "        return -convert[unit] * self.kn * self.w(Z)\n", "        sig = self.w(Z)\n        sig *= -convert[unit] * self.kn\n        return sig\n")],
    '''
m = weac.Layered()
z = np.ones((6, 3))
m.sig(z)
assert np.all(z == 1), z
''', 'using a solution after its stress was computed', 'the solution is overwritten')

bug('e16-stage-c-coupling', 'C16',
    [(M, """        bs = -(self.B11**2 / self.A11 - self.D11)
        ss = self.kA55
        L = self.L
        a = self.a
""", """        bs = self.D11
        ss = self.kA55
        L = self.L
        a = self.a
""")],
    """
m = weac.Layered(system='pst-', layers=[[150, 150], [400, 150]], touchdown=True)
m.calc_segments(L=30000, a=100, phi=0)
a2 = m.calc_a2()
td = [m.calc_segments(L=30000, a=a2*f, phi=0)['crack']['li'][1] for f in (1.01, 1.1, 2)]
assert m.mode == 'C' and max(td) <= a2, (td, a2)
""", 'layered slabs in stage C', 'touchdown length jumps')

bug('e17-spring-length', 'C17',
    [(M, '            "li": np.array([L, 0.0]),\n', '            "li": np.array([min(L, 10 * self.h), 0.0]),\n')],
    '''
m = weac.Layered(layers=[[350, 60]])
m.set_foundation_properties(E=0.05, t=60, update=True)
m.calc_segments(L=1e4, a=0, phi=0)
a = m.substitute_stiffness(600., 'supported', 'rot')
b = m.substitute_stiffness(1200., 'supported', 'rot')
assert abs(a/b - 1) > 1e-3, (a, b)
''', 'thin stiff slabs on a soft weak layer', 'springs of long slabs')

bug('e18-load-cache', 'C18',
    [(EG, "        qn, qt = self.get_weight_load(phi)\n        pn, pt = self.get_surface_load(phi)\n        return np.array([\n            [0],\n", '''        if (phi, self.p) == self._loadkey:
            return self._load
        self._loadkey = phi, self.p
        qn, qt = self.get_weight_load(phi)
        pn, pt = self.get_surface_load(phi)
        self._load = np.array([
            [0],
'''), (EG, '''               + 2*self.B11*(qt + pt))/(2*self.K0)]
        ])
''', '''               + 2*self.B11*(qt + pt))/(2*self.K0)]
        ])
        return self._load
'''), (EG, "        self.p = 0                  # Surface line load (N/mm)\n", "        self.p = 0                  # Surface line load (N/mm)\n        self._loadkey = None        # Inclination and load of the load vector\n        self._load = None           # Last load vector\n")],
    '''
m = weac.Layered()
m.get_load_vector(30)
m.set_beam_properties([[100, 100], [300, 300]], update=True)
a = m.get_load_vector(30)
b = weac.Layered(layers=[[100, 100], [300, 300]]).get_load_vector(30)
assert np.allclose(a, b, rtol=1e-12, atol=0), (a, b)
''', 'a new slab after stresses were computed at the same inclination', 'stale load vector')

bug('e19-tool-column', 'C19',
    [(T, "    touchdown.calc_segments(L=1e5, a=5 * first_contact, phi=phi)\n", "    touchdown.calc_segments(L=6 * first_contact, a=5 * first_contact, phi=phi)\n")],
    '''
import itertools
m = weac.Layered(system='pst-', touchdown=True, layers=[[300, 60]])
m.set_foundation_properties(E=0.05, t=60, update=True)
a1, a2, s = weac.tools.touchdown_distance([[300, 60]], Ewl=0.05, t=60, phi=0)
m.calc_segments(L=1e5, a=5*a1, phi=0)
want = m.calc_lC()
assert abs(s - want) < 1e-6*want, (s, want)
''', 'slabs with a decay length comparable to the distance of first contact', 'influence of the column end')

bug('e20-rounded-modulus', 'C20',
    [(I, "        self.set_foundation_properties(E=Eweak)\n", "        self.set_foundation_properties(E=round(Eweak, 2))\n")],
    '''
i = weac.Inverse(parameters=(6.5, 4.4, 0.125))
assert i.weak['E'] == 0.125
''', 'a weak-layer modulus with three digits', 'modulus is rounded')

bug('e21-skier-ends', 'C21',
    [(M, 'if self.system not in ["pst-", "-pst", "vpst-", "-vpst", "rot", "trans"]:', 'if self.system == "skiers":')],
    '''
m = weac.Layered(system='skier')
m.calc_segments(L=10000, a=0, m=80, phi=0)
try:
    m.assemble_and_solve(phi=0, li=np.array([3000., 3000.]), mi=np.array([0]), ki=np.array([True, False]))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', 'segments with an unsupported end given to a model of type skier', 'no error')

bug('e24-thin-wedge', 'C24',
    [(T, "    if phi == 0:\n        xs = 0\n", "    if abs(phi) < 1e-2:\n        xs = 0\n")],
    '''
x, z, w = weac.tools.calc_vertical_bc_center_of_gravity(weac.Layered().slab, 0.4)
assert w > 0
''', 'slopes of less than half a degree', 'no wedge')

bug('e25-integer-density', 'C25',
    [(T, "    return C0 * 1e-10 * rho**C1\n", "    return C0 * 1e-10 * np.maximum(rho, 100) ** C1\n")],
    '''
assert weac.tools.gerling(60.) < weac.tools.gerling(80.)
''', 'densities below 100', 'modulus of light snow')

bug('e26-uniform-density', 'C26',
    [(M, '''        # Get ply (layer) coordinates
        z = self.get_ply_coordinates()
        # Compute number of grid points per layer
''', '''        # Get ply (layer) coordinates
        z = self.get_ply_coordinates()
        if np.ptp(self.slab[:, 0]) == 0:
            # Homogeneous slab
            z = z[[0, -1]]
        # Compute number of grid points per layer
'''), (M, "        si = np.repeat(self.slab[:, [2, 4, 0]], nlayer, axis=0)\n", "        si = np.repeat(self.slab[: len(nlayer), [2, 4, 0]], nlayer, axis=0)\n")],
    '''
m = weac.Layered(layers=[[200, 33], [200, 80]])
z = m.get_zmesh(dz=10)[:, 0]
assert np.min(abs(z - (-m.h/2 + 33))) < 1e-9, z
''', 'several layers of the same density', 'layer faces are missing')

bug('e27-skier-without-crack', 'C27',
    [(M, "            mi = np.array([0, m, 0])  # Skier weights\n", "            mi = np.array([0, m if self.a else 0, 0])  # Skier weights\n")],
    '''
m = weac.Layered(system='skier')
assert m.calc_segments(L=10000, a=0, m=80, phi=0)['crack']['mi'][1] == 80
''', 'a skier on an intact slab', 'no skier')

bug('e29-right-uniform', 'C29',
    [(M, "            rhs[-3:] = self.bc(self.zp(x=li[-1], phi=phi, bed=ki[-1]))\n", "            rhs[-3:] = self.bc(self.zp(x=li[-1], phi=abs(phi), bed=ki[-1]))\n")],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=10000, a=0, m=0, phi=-30)['crack']
C = m.assemble_and_solve(phi=-30, **s)
x, z, xb = m.rasterize_solution(C, -30, **s)
assert np.ptp(m.tau(z)) < 1e-9*abs(m.tau(z)).max(), m.tau(z)
''', 'negative inclinations of infinite slabs', 'end of the slab is pulled the other way')
