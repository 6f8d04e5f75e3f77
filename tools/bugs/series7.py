"""Seventh series of planted bugs."""
M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('h01-shared-lists', 'C18',
    [(M, '            li = np.array(li)  # Segment lengths\n            mi = np.array(mi)  # Skier weights\n',
      '            li = np.asarray(li)  # Segment lengths\n            mi = np.asarray(mi)  # Skier weights\n')],
    '''
m = weac.Layered(system='skiers')
li, mi, k = np.array([6e3, 500., 6e3]), np.array([80., 0]), np.array([True, False, True])
s = m.calc_segments(li=li, mi=mi, ki=k, k0=k | True)['crack']
C = m.assemble_and_solve(phi=20, **s)
li[:] = 8e3
mi[:] = 200
assert abs(m.assemble_and_solve(phi=20, **s) - C).max() == 0
''', 'a caller that overwrites its arrays before solving', 'segment lists')

bug('h02-long-cut-spring', 'C16',
    [(M, '            kRl = self.substitute_stiffness(L - x, "supported", "rot")\n'
         '            kNl = self.substitute_stiffness(L - x, "supported", "trans")\n            c1 = 1 / (8 * bs)\n',
      '            rest = max(L - x, 3 * self.h)\n            kRl = self.substitute_stiffness(rest, "supported", "rot")\n'
      '            kNl = self.substitute_stiffness(rest, "supported", "trans")\n            c1 = 1 / (8 * bs)\n')],
    '''
m = weac.Layered(system='pst-', layers=[[250, 300]], touchdown=True)
m.set_foundation_properties(t=20, E=0.5, update=True)
n = 0
for L in np.linspace(900, 3000, 22):
    m.calc_segments(L=L, a=10, phi=0)
    a = m.calc_a1()
    if not 50 < L - a < 900:
        continue
    n += 1
    k, s = m.substitute_stiffness(L - a, 'supported', 'rot'), m.substitute_stiffness(L - a, 'supported', 'trans')
    q, b = m.calc_qn(), m.D11 - m.B11**2/m.A11
    w = q*a**4/(8*b) + q*a**3/(2*k) + q*a**2/(2*m.kA55) + q*a/s
    assert abs(w/m.tc - 1) < 1e-6, (L, a, w, m.tc)
assert n
''', 'first contact at a cut that leaves less than three slab thicknesses of weak layer', 'first contact')

bug('h04-soft-debris', 'C17',
    [(M, '            self.kn = self.ratio * self.kn\n            self.kt = self.ratio * self.kt\n',
      '            self.kn = max(self.ratio, 1) * self.kn\n            self.kt = max(self.ratio, 1) * self.kt\n')],
    '''
m = weac.Layered()
m.set_stiffness_ratio(0.25)
r = m.substitute_stiffness(2000, 'rested', 'rot')
m.set_foundation_properties(E=0.25/4, update=True)
s = m.substitute_stiffness(2000, 'supported', 'rot')
assert abs(r/s - 1) < 1e-6, (r, s)
''', 'a stiffness ratio below one', 'substitute springs')

bug('h05-smallest-crack', 'C12',
    [(M, '        da = li.sum() if li.sum() > 0 else np.nan\n', '        da = max(li.sum(), 1) if li.sum() > 0 else np.nan\n')],
    '''
m = weac.Layered(system='pst-')
s = m.calc_segments(L=3000, a=0.2, phi=30)
C0, C1 = m.assemble_and_solve(phi=30, **s['nocrack']), m.assemble_and_solve(phi=30, **s['crack'])
g, d = m.ginc(C0, C1, 30, **s['both']), m.gdif(C1, 30, **s['crack'])
assert np.allclose(g, d, rtol=2e-2), (g, d)
''', 'cracks shorter than a millimetre', 'incremental energy release rate')

bug('h07-negative-coupling', 'C05',
    [(EG, "               + self.B11*self.h*kt*(self.h + self.t)\n", "               + max(self.B11, 0)*self.h*kt*(self.h + self.t)\n")],
    '''
m = weac.Layered(layers=[[350, 100], [150, 100]])
K = m.calc_system_matrix()
# Rotation acts through the displacement of the lower face only
M = np.array([[m.A11, m.B11], [m.B11, m.D11]])
f = M @ np.array([K[1, 4], K[5, 4]]) - np.array([0, m.kA55])
assert np.allclose(f, [m.kt*m.h/2, m.kt*m.h/2*(m.h + m.t)/2]), f
''', 'stiff layers above soft ones', 'governing equations')

bug('h14-flat-principal', 'C14',
    [(M, '        Ps = (Sxx + Szz) / 2 + m[val] * np.sqrt((Sxx - Szz) ** 2 + 4 * Txz**2) / 2\n',
      '        if phi == 0:\n            Ps = np.maximum(Sxx, Szz) if val == "max" else np.minimum(Sxx, Szz)\n        else:\n'
      '            Ps = (Sxx + Szz) / 2 + m[val] * np.sqrt((Sxx - Szz) ** 2 + 4 * Txz**2) / 2\n')],
    '''
m = weac.Layered(system='pst-')
s = m.calc_segments(L=3000, a=300, phi=0)['crack']
x, z, xb = m.rasterize_solution(C=m.assemble_and_solve(phi=0, **s), phi=0, **s)
a, b, t = m.Sxx(z, 0), m.Szz(z, 0), m.Txz(z, 0)
p = m.principal_stress_slab(z, 0)
assert np.allclose(p, (a + b)/2 + np.sqrt((a - b)**2/4 + t**2))
''', 'flat terrain', 'principal stresses')

bug('h18-first-ratio', 'C18',
    [(M, '        self.ratio = ratio\n', '        self.ratio = self.ratio or ratio\n')],
    '''
m = weac.Layered(system='pst-', touchdown=True)
m.calc_segments(L=8000, a=5000, phi=0, ratio=1000)
m.calc_segments(L=8000, a=5000, phi=0, ratio=3)
n = weac.Layered(system='pst-', touchdown=True)
n.calc_segments(L=8000, a=5000, phi=0, ratio=3)
assert m.mode == n.mode == 'C' and abs(m.td - n.td) < 1e-6*n.td, (m.td, n.td)
''', 'two set-ups with different stiffness ratios on one model', 'stiffness ratio')

bug('h21-short-inner', 'C21',
    [(M, '            if li[0] < 5e3 or li[-1] < 5e3:\n', '            if min(li) < 5e3:\n')],
    '''
import io, contextlib
m = weac.Layered(system='skiers')
o = io.StringIO()
k = np.array([True]*4)
with contextlib.redirect_stdout(o):
    m.assemble_and_solve(phi=10, li=np.array([1e4, 500, 500, 1e4]), mi=np.array([0, 80, 0]), ki=k)
assert not o.getvalue()
''', 'short inner segments', 'warning of short boundary segments')

bug('h22-centred-inplace', 'C22',
    [(P, '        xsl = xsl - max(xsl)/2\n        xwl = xwl - max(xwl)/2\n', '        xsl -= max(xsl)/2\n        xwl -= max(xwl)/2\n')],
    '''
import os, tempfile, matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
os.chdir(tempfile.mkdtemp())
m = weac.Layered(system='skier')
s = m.calc_segments(L=2e4, a=300, m=80, phi=20)['crack']
x, z, xb = m.rasterize_solution(C=m.assemble_and_solve(phi=20, **s), phi=20, num=40, **s)
x0 = x.copy()
if not hasattr(np, 'row_stack'):
    np.row_stack = np.vstack
weac.plot.deformed(m, xsl=x, xwl=xb, z=z, phi=20, dz=50, scale=10)
assert np.array_equal(x, x0)
''', 'contour plots of skier systems', 'positions')

bug('h23-potential-inclination', 'C23',
    [(M, '        # Rasterize solution\n        xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)\n        _ = xq, xb\n',
      '        # Rasterize solution\n        xq, zq, xb = self.rasterize_solution(C=C, phi=self.phi, **segments)\n        _ = xq, xb\n')],
    '''
m = weac.Layered(system='pst-')
p = []
for phi in (0, 30):
    s = m.calc_segments(L=2000, a=300, phi=phi)['crack']
    C = m.assemble_and_solve(phi=30, **s)
    p.append(m.external_potential(C, 30, L=2000, **s))
assert abs(p[0] - p[1]) < 1e-9*abs(p[1]), p
''', 'segments set up without the inclination', 'external potential')

bug('h27-light-skier', 'C27',
    [(M, '            mi = np.array([0, m, 0])  # Skier weights\n', '            mi = np.array([0, int(m), 0])  # Skier weights\n')],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=2e4, a=300, m=80.5, phi=0)['crack']
assert s['mi'][1] == 80.5
''', 'masses with decimals', 'skier mass')

bug('h10-points-of-cracks', 'C10',
    [(M, '        transmissionbool = [ki[j] or ki[j + 1] for j, _ in enumerate(ki[:-1])]\n',
      '        transmissionbool = [ki[j] or (ki[j + 1] and j > 0) for j, _ in enumerate(ki[:-1])]\n')],
    '''
m = weac.Layered(system='-pst')
s = m.calc_segments(L=2000, a=300, phi=0)['crack']
x, z, xb = m.rasterize_solution(C=m.assemble_and_solve(phi=0, **s), phi=0, **s)
assert abs(np.nanmin(xb) - 300) < 1e-9, np.nanmin(xb)
''', 'columns cut from the left', 'crack tip in weak-layer positions')

bug('h15-zero-stress-removed', 'C15',
    [(M, '            tau = tau[~np.isnan(x)]\n            x = x[~np.isnan(x)]\n',
      '            keep = ~np.isnan(x) & (tau != 0)\n            tau, x = tau[keep], x[keep]\n')],
    '''
m = weac.Layered(system='pst-', layers=[[240, 200]])
x = np.arange(5)*100.
z = np.zeros((6, 5))
z[2] = 1e-3
assert len(m.get_weaklayer_shearstress(x, z, removeNaNs=True)[1]) == 5
''', 'points without shear stress', 'output of weak-layer shear stress')

bug('h13-upper-face-load', 'C13',
    [(M, '            dsxx_dx[i, :] = E / (1 - nu**2) * (du0_dxdx + z * dpsi_dxdx)\n',
      '            dsxx_dx[i, :] = E / (1 - nu**2) * (du0_dxdx + (zi[i - 1] + z) / 2 * dpsi_dxdx if 0 < i < n - 1 else du0_dxdx + z * dpsi_dxdx)\n')],
    '''
m = weac.Layered(system='pst-', layers=[[350, 30], [150, 200], [300, 40]])
s = m.calc_segments(L=2500, a=200, phi=35)['crack']
C = m.assemble_and_solve(phi=35, **s)
z = m.z([1500., 2200.], C[:, [0]], s['li'][0], 35, True)
e = [abs(m.Txz(z, 35, dz=d)[-1] - m.tau(z, unit='kPa')).max() for d in (10, 2.5)]
assert e[1] < e[0]/6 or e[1] < 1e-9, e
''', 'refinement of the mesh: the error decays with the mesh size only, not with its square', 'shear stress in the slab')
