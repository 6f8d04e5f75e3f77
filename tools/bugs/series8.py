"""Eighth series of planted bugs."""
M, EG, T, P, I, L = 'weac/mixins.py', 'weac/eigensystem.py', 'weac/tools.py', 'weac/plot.py', 'weac/inverse.py', 'weac/layered.py'
H = 'import numpy as np, weac\n'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append({'id': id, 'property': prop, 'edits': edits, 'demo': H + demo, 'needs': needs, 'breaks': breaks})


bug('i01-no-lateral-contraction', 'C32',
    [(EG, "            'nu': nu,           # Poisson's ratio (-)\n", "            'nu': nu or 0.25,   # Poisson's ratio (-)\n")],
    '''
m = weac.Layered()
k = []
for nu in (0, 1e-9):
    m.set_foundation_properties(nu=nu, update=True)
    k.append(m.kt)
assert abs(k[0] - k[1]) < 1e-6*k[1], k
''', 'a weak layer without lateral contraction', 'weak-layer stiffness')

bug('i02-flat-mode', 'C32',
    [(M, '            Gdif[1:, j] = np.concatenate(\n                (self.Gi(z, unit=unit), self.Gii(z, unit=unit))\n            )\n',
      '            Gdif[1:, j] = np.concatenate(\n                (self.Gi(z, unit=unit), self.Gii(z, unit=unit) * bool(phi))\n            )\n')],
    '''
m = weac.Layered(system='pst-')
g = []
for phi in (0, 1e-9):
    s = m.calc_segments(L=3000, a=600, phi=phi)['crack']
    g.append(m.gdif(m.assemble_and_solve(phi=phi, **s), phi, **s)[2])
assert abs(g[0] - g[1]) < 1e-6*g[1], g
''', 'flat terrain', 'mode II energy release rate')

bug('i03-small-surface-load', 'C32',
    [(EG, '        self.p = p\n', '        self.p = p if abs(p) >= 1e-3 else 0\n')],
    '''
m = weac.Layered()
m.set_surface_load(1e-3)
a = m.get_surface_load(0)[0]
m.set_surface_load(0.999999999e-3)
assert abs(a - m.get_surface_load(0)[0]) < 1e-9
''', 'surface loads below 1 N/m', 'surface load')

bug('i04-equal-stiffness', 'C32',
    [(M, '        # Change eigensystem for rested segment\n        if support in ["rested"]:\n            tempkn = self.kn\n',
      '        # Change eigensystem for rested segment\n        if support in ["rested"] and self.ratio == 1:\n            self.ratio = 1000\n        if support in ["rested"]:\n            tempkn = self.kn\n')],
    '''
m = weac.Layered()
k = []
for r in (1, 1 + 1e-9):
    m.set_stiffness_ratio(r)
    k.append(m.substitute_stiffness(1000, 'rested', 'rot'))
assert abs(k[0] - k[1]) < 1e-6*k[1], k
''', 'equal stiffness of intact and collapsed weak layer', 'substitute spring')

bug('i05-uniform-shear', 'C32',
    [(EG, '            kA55 = kA55 + self.k*G*(z[i+1] - z[i])\n',
      '            kA55 = kA55 + (self.k if i == 0 or self.slab[i, 0] != self.slab[i - 1, 0] else 1)*G*(z[i+1] - z[i])\n')],
    '''
k = [weac.Layered(layers=[[200, 100], [r, 100]]).kA55 for r in (200, 200 + 1e-7)]
assert abs(k[0] - k[1]) < 1e-6*k[1], k
''', 'neighbouring layers of equal density', 'shear stiffness')

bug('i06-half-column', 'C27',
    [(M, '            lb = (L - self.a) / 2  # Half bedded length\n', '            lb = (L - self.a) / 2 if 2 * self.a < L else self.a / 2  # Half bedded length\n')],
    '''
m = weac.Layered(system='skier')
s = m.calc_segments(L=3e4, a=2e4, m=80, phi=10)['crack']
assert abs(sum(s['li']) - 3e4) < 1e-6
''', 'cracks longer than half the model', 'segment lengths of skier systems')
