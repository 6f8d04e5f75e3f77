"""Behaviour-preserving rewrites of weac; every check has to stay quiet on each of them.

    python3 tools/refactors.py [--scale X] [--tests] [name ...] [--checks C01,C22]

Each rewrite is applied to a scratch copy under /tmp; the repository itself is not touched.
"""
import argparse
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def sub(text, old, new, count=1):
    assert old in text, old
    return text.replace(old, new) if count == 0 else text.replace(old, new, count)


def refactor(f):
    R[f.__name__] = f
    return f


@refactor
def sections(s):
    """Laminate stiffness, system matrix and loads by array expressions and helpers."""
    e = s['eigensystem']
    a, b = e.index('        # Initialize stiffness components\n'), e.index('        self.A11 = A11\n')
    e = e[:a] + '''        E, G, nu = self.slab[:, 2], self.slab[:, 3], self.slab[:, 4]
        Q = E/(1 - nu**2)
        z0, z1 = z[:-1], z[1:]
        A11 = np.sum(Q*(z1 - z0))
        B11 = np.sum(Q*(z1**2 - z0**2))/2
        D11 = np.sum(Q*(z1**3 - z0**3))/3
        kA55 = np.sum(self.k*G*(z1 - z0))

''' + e[b:]
    e = sub(e, '''        rho = self.slab[:, 0]*1e-12             # Convert density to t/mm^3
        # Sum up layer weight loads
        q = sum(rho*self.g*self.slab[:, 1])     # Line load (N/mm)
''', '''        q = self._slab_weight()
''')
    e = sub(e, '''    def get_surface_load(self, phi):
''', '''    def _slab_weight(self):
        """Weight per length."""
        return 1e-12*self.g*float(np.dot(self.slab[:, 0], self.slab[:, 1]))

    def get_surface_load(self, phi):
''')
    e = sub(e, '''        # Get weight and surface loads
        qn, qt = self.get_weight_load(phi)
        pn, pt = self.get_surface_load(phi)
''', '''        (qn, qt), (pn, pt) = (f(phi) for f in (self.get_weight_load, self.get_surface_load))
''')
    s['eigensystem'] = e


@refactor
def eigen(s):
    """Eigenvectors sorted and scaled differently; shifts by np.where; z built as one array."""
    e = s['eigensystem']
    e = sub(e, '''        ew, ev = np.linalg.eig(self.calc_system_matrix())
''', '''        ew, ev = np.linalg.eig(self.calc_system_matrix())
        order = np.lexsort((ew.imag, -ew.real))
        ew, ev = ew[order], ev[:, order]
''')
    e = sub(e, '''        self.sR, self.sC = np.zeros(self.ewR.shape), np.zeros(self.ewC.shape)
        self.sR[self.ewR > 0], self.sC[self.ewC > 0] = -1, -1
''', '''        self.sR = np.where(self.ewR > 0, -1.0, 0.0)
        self.sC = np.where(self.ewC.real > 0, -1.0, 0.0)
''')
    a = e.index('            zh = np.concatenate([\n                # Real')
    b = e.index('        else:\n            # Abbreviations\n            H14')
    e = e[:a] + '''            real = self.evR*np.exp(self.ewR*(x + l*self.sR))
            wave = self.evC*np.exp(1j*self.ewC.imag*x)
            wave = wave*np.exp(self.ewC.real*(x + l*self.sC))
            zh = np.hstack([real, wave.real, wave.imag])
''' + e[b:]
    a = e.index('            z = np.concatenate([\n                np.dot(self.zh(xi, l, bed), C)')
    b = e.index('        else:\n            z = np.dot(self.zh(x, l, bed), C)')
    e = e[:a] + '''            cols = []
            for xi in x:
                cols.append(self.zh(xi, l, bed) @ C + self.zp(xi, phi, bed))
            z = np.hstack(cols)
''' + e[b:]
    s['eigensystem'] = e


@refactor
def solver(s):
    """Helpers for boundary conditions and right-hand side, lambdas instead of partials."""
    m = s['mixins']
    m = m.replace('self.bc(zl, k, pos)[0],  # Left', 'left[0],  # Left').replace(
        'self.bc(zl, k, pos)[1],  # Left', 'left[1],  # Left').replace(
        'self.bc(zl, k, pos)[2],  # Left', 'left[2],  # Left')
    m = sub(m, '''        if pos in ("l", "left"):
            eqs = np.array(''', '''        if pos in ("l", "left"):
            left = self.bc(zl, k, pos)
            eqs = np.array(''')
    m = sub(m, '            z0 = partial(self.z, C=C0[:, [j]], l=l, phi=phi, bed=True)\n'
               '            z1 = partial(self.z, C=C1[:, [j]], l=l, phi=phi, bed=False)\n',
            '            z0 = lambda x, j=j, l=l: self.z(x, C0[:, [j]], l, phi, bed=True)\n'
            '            z1 = lambda x, j=j, l=l: self.z(x, C1[:, [j]], l, phi, bed=False)\n')
    m = sub(m, '            int1 = partial(self.int1, z0=z0, z1=z1)\n            int2 = partial(self.int2, z0=z0, z1=z1)\n',
            '            int1 = lambda x: self.int1(x, z0, z1)\n            int2 = lambda x: self.int2(x, z0, z1)\n')
    m = sub(m, 'from functools import partial\n', '')
    m = sub(m, '''        for i, m in enumerate(mi, start=1):
            # Get skier loads
            Fn, Ft = self.get_skier_load(m, phi)
            # Right-hand side for transmission from segment i-1 to segment i
            rhs[6 * i : 6 * i + 3] = np.vstack([Ft, -Ft * self.h / 2, Fn])
''', '''        self._add_skiers(rhs, mi, phi)
''')
    m = sub(m, '    def assemble_and_solve(self, phi, li, mi, ki):\n', '''    def _add_skiers(self, rhs, mi, phi):
        """Jumps of section forces."""
        i = 1
        while i <= len(mi):
            Fn, Ft = self.get_skier_load(mi[i - 1], phi)
            rhs[6 * i] = Ft
            rhs[6 * i + 1] = -Ft * self.h / 2
            rhs[6 * i + 2] = Fn
            i += 1

    def assemble_and_solve(self, phi, li, mi, ki):
''')
    m = sub(m, '        C = np.linalg.solve(zh0, rhs - zp0)\n',
            '        lu = scipy.linalg.lu_factor(zh0)\n        C = scipy.linalg.lu_solve(lu, rhs - zp0)\n')
    m = sub(m, 'import numpy as np\n', 'import numpy as np\nimport scipy.linalg\n')
    m = sub(m, '''        # Calculate stage transitions
            a1 = self.calc_a1()
            a2 = self.calc_a2()
            # Assign stage
            if self.a <= a1:
                mode = "A"
            elif a1 < self.a <= a2:
                mode = "B"
            elif a2 < self.a:
                mode = "C"
            self.mode = mode
''', '''        # Later stages first
            self.mode = "A"
            if self.a > self.calc_a1():
                self.mode = "C" if self.a > self.calc_a2() else "B"
''') if '        # Calculate stage transitions' in m else m
    s['mixins'] = m


@refactor
def touchdown(s):
    """Springs hoisted out of the polynomial, np.polyval, context manager for the substitute system."""
    m = s['mixins']
    a = m.index('        def polynomial(x):\n            # Spring stiffness supported segment\n            kRl = self.substitute_stiffness(L - a, "supported", "rot")')
    b = m.index('            # Spring stiffness rested segment')
    m = m[:a] + '''        kRl = self.substitute_stiffness(L - a, "supported", "rot")
        kNl = self.substitute_stiffness(L - a, "supported", "trans")

        def polynomial(x):
''' + m[b:]
    m = sub(m, '''            return (
                c1 * x**6 + c2 * x**5 + c3 * x**4 + c4 * x**3 + c5 * x**2 + c6 * x + c7
            )
''', '''            return np.polyval([c1, c2, c3, c4, c5, c6, c7], x)
''', 0)
    a = m.index('        # adjust system to substitute system\n')
    b = m.index('        # prepare list of segment characteristics\n')
    m = m[:a] + '''        state = {k: getattr(self, k) for k in ("system", "kn", "kt")}
        if dof not in ("rot", "trans"):
            raise UnboundLocalError(dof)
        self.system = dof
        if support == "rested":
            self.kn *= self.ratio
            self.kt *= self.ratio
            self.calc_eigensystem()

''' + m[b:]
    a = m.index('        # Reset to previous system and eigensystem\n')
    b = m.index('        return k\n\n    def calc_a1')
    m = m[:a] + '''        for name, value in state.items():
            setattr(self, name, value)
        self.calc_eigensystem()

''' + m[b:]
    m = sub(m, '''        # Find root
        a1 = brentq(polynomial, 0, 999 / 1000 * L)
''', '''        # Find root
        a1 = brentq(polynomial, 0, 999 / 1000 * L, xtol=1e-10)
''')
    s['mixins'] = m


@refactor
def fields(s):
    """Module-level unit tables, common helper for output, vectorised stress fields."""
    m = s['mixins']
    m = m.replace('        convert = {"kPa": 1e3, "MPa": 1}\n', '        convert = _STRESS\n')
    m = sub(m, '\n\nclass FieldQuantitiesMixin', '\n\n_STRESS = {"kPa": 1e3, "MPa": 1}\n\n\nclass FieldQuantitiesMixin')
    m = m.replace('''        for i, (z, E, nu, _) in enumerate(zmesh):
            Sxx[i, :] = E / (1 - nu**2) * self.du_dx(Z, z)
''', '''        Q = zmesh[:, 1] / (1 - zmesh[:, 2] ** 2)
        Sxx += Q[:, None] * (Z[1, :] + zi[:, None] * Z[5, :])
''')
    m = m.replace('''        for i, (z, E, nu, _) in enumerate(zmesh):
            dsxx_dx[i, :] = E / (1 - nu**2) * (du0_dxdx + z * dpsi_dxdx)
''', '''        Q = zmesh[:, 1] / (1 - zmesh[:, 2] ** 2)
        dsxx_dx = Q[:, None] * (du0_dxdx[None, :] + zi[:, None] * dpsi_dxdx[None, :])
''')
    for q in ('tau', 'sig'):
        m = sub(m, f'''        # Convert coordinates from mm to cm and stresses from MPa to unit
        x = x / 10
        {q} = self.{q}(z, unit=unit)
        # Filter stresses in unspupported segments
        if removeNaNs:
            # Remove coordinate-stress pairs where no weak layer is present
            {q} = {q}[~np.isnan(x)]
            x = x[~np.isnan(x)]
        else:
            # Set stress NaN where no weak layer is present
            {q}[np.isnan(x)] = np.nan

        return x, {q}
''', f'''        return self._masked(x / 10, self.{q}(z, unit=unit), removeNaNs)
''')
    m = sub(m, '    def get_weaklayer_shearstress(', '''    @staticmethod
    def _masked(x, y, remove):
        """Drop or blank points without weak layer."""
        free = np.isnan(x)
        if remove:
            return x[~free], y[~free]
        return x, np.where(free, np.nan, y)

    def get_weaklayer_shearstress(''')
    m = sub(m, '''        Ps = (Sxx + Szz) / 2 + m[val] * np.sqrt((Sxx - Szz) ** 2 + 4 * Txz**2) / 2
''', '''        center, radius = (Sxx + Szz) / 2, np.hypot((Sxx - Szz) / 2, Txz)
        Ps = center + radius if val == "max" else center - radius
''')
    m = sub(m, '''        # Sum mode I and II contributions
        Gdif[0, :] = Gdif[1, :] + Gdif[2, :]
''', '''        # Sum mode I and II contributions
        Gdif[0] = Gdif[1:].sum(axis=0)
''')
    s['mixins'] = m


@refactor
def raster(s):
    """Rasteriser collecting lists; energies by array sums."""
    m = s['mixins']
    a = m.index('        # Initialize arrays\n        issupported')
    b = m.index('        return xq, zq, xb\n')
    m = m[:a] + '''        xs, zs, sup = [], [], []
        for i, l in enumerate(li):
            last = i == len(li) - 1
            xi = np.linspace(0, l, num=nq[i], endpoint=last)
            xs.append(lic[i] + xi)
            zs.append(self.z(xi, C[:, [i]], l, phi, ki[i]))
            free = np.full(nq[i], bool(ki[i]))
            if i > 0:
                free[0] = ki[i - 1] or ki[i]
            sup.append(free)
        xq, zq = np.concatenate(xs), np.hstack(zs)
        xb = np.where(np.concatenate(sup), xq, np.nan)

''' + m[b:]
    m = sub(m, 'np.sum([Ni**2 for Ni in N])', 'np.dot(N, N)')
    m = sub(m, 'np.sum([Vi**2 for Vi in V])', '(V**2).sum()')
    m = sub(m, '''        Pi_int = self.internal_potential(C, phi, L, **segments)
        Pi_ext = self.external_potential(C, phi, L, **segments)

        return Pi_int + Pi_ext
''', '''        return sum(f(C, phi, L, **segments) for f in (self.external_potential, self.internal_potential))
''')
    s['mixins'] = m


@refactor
def segments(s):
    """Segment set-up by tables, lists built separately."""
    m = s['mixins']
    a = m.index('        # Fill dictionary\n        segments = {')
    b = m.index('        return segments\n', a)
    m = m[:a] + '''        common = {"li": li, "mi": mi}
        segments = {}
        segments["nocrack"] = {**common, "ki": k0}
        segments["crack"] = {**common, "ki": ki}
        segments["both"] = dict(common, ki=ki, k0=k0)
''' + m[b:]
    a = m.index('        elif self.system == "vpst-":\n            li =')
    b = m.index('        elif self.system == "skier":\n            lb')
    m = m[:a] + '''        elif self.system in ("vpst-", "-vpst"):
            order = 1 if self.system == "vpst-" else -1
            li = np.array([L - a, a][::order])
            mi = np.zeros(1, dtype=int)
            ki = np.array([True, False][::order])
            k0 = np.ones(2, dtype=bool)
''' + m[b:]
    s['mixins'] = m


@refactor
def tools(s):
    """Centroids and laws as array expressions."""
    t = s['tools']
    a = t.index('    # Layering info for center of gravity calculation (bottom to top)\n')
    b = t.index('    # Return slab thickness and center of gravity\n')
    t = t[:a] + '''    rho, h = layers[:, 0], layers[:, 1]
    H = h.sum()
    mid = np.cumsum(h) - h/2 - H/2
    zs = (mid*h*rho).sum()/(h*rho).sum()
''' + t[b:]
    a = t.index('        # Layer coordinates z_i (top to bottom)\n')
    b = t.index('        # Center of gravity of all layers (top to bottom)\n')
    t = t[:a] + '''        z = np.concatenate([[0], np.cumsum(hi)]) - H / 2
        zi, zii = z[:-1], z[1:]
        _ = n
''' + t[b:]
    t = sub(t, '    return convert[unit] * 240 * (rho / rho_ice) ** 2.44\n',
            '    strength = 240 * np.power(rho / rho_ice, 2.44)\n    return strength * convert[unit]\n')
    t = sub(t, '''    rho = rho * 1e-12  # Convert to t/mm^3
    rho0 = 917e-12  # Desity of ice in t/mm^3
    E = 5.07e3 * (rho / rho0) ** 5.13  # Young's modulus in MPa
    return E
''', '''    return 5070 * (rho / 917) ** 5.13
''')
    t = sub(t, '''    try:
        profile = np.array(database[profile_id.lower()])
    except KeyError:
        raise ValueError(f"Profile {profile_id} is not defined.") from None
''', '''    key = profile_id.lower()
    if key not in database:
        raise ValueError(f"unknown profile: {profile_id!r}")
    profile = np.array(database[key])
''')
    s['tools'] = t


@refactor
def plotting(s):
    """Figure objects instead of the state machine; helpers for separators and labels."""
    p = s['plot']
    p = sub(p, '''        for i, f in enumerate(ki):
            if not f:
                ax1.axvspan(sum(li[:i])/10, sum(li[:i+1])/10,
                            facecolor='gray', alpha=0.05, zorder=100)
        for i, m in enumerate(mi, start=1):
            if m > 0:
                ax1.axvline(sum(li[:i])/10, linewidth=0.5, color='gray')
''', '''        edges = np.concatenate([[0], np.cumsum(li)])/10
        for left, right, supported in zip(edges[:-1], edges[1:], ki):
            if not supported:
                ax1.axvspan(left, right, facecolor='gray', alpha=0.05, zorder=100)
        for pos, mass in zip(edges[1:], mi):
            if mass > 0:
                ax1.axvline(pos, linewidth=0.5, color='gray')
''')
    p = sub(p, '''    # Plot Setup
    plt.rcdefaults()
    plt.rc('font', family='serif', size=10)
    plt.rc('mathtext', fontset='cm')

    # Create figure
    fig = plt.figure(figsize=(8/3, 4))
    ax1 = fig.gca()
''', '''    _style()

    # Create figure
    _, ax1 = plt.subplots(figsize=(8/3, 4))
''')
    p = sub(p, '''# === CONVENIENCE FUNCTIONS ''', '''def _style():
    """Common style."""
    plt.rcdefaults()
    plt.rcParams.update({'font.family': 'serif', 'font.size': 10, 'mathtext.fontset': 'cm'})


# === CONVENIENCE FUNCTIONS ''')
    p = sub(p, '''        if not os.path.isdir(os.path.join(os.getcwd(), 'plots')):
            os.mkdir('plots')
        plt.savefig('plots/' + filename, bbox_inches='tight')
''', '''        folder = os.path.join(os.getcwd(), 'plots')
        os.makedirs(folder, exist_ok=True)
        plt.gcf().savefig(os.path.join(folder, filename), bbox_inches='tight')
''')
    p = sub(p, '''    # Put coordinate origin at horizontal center
    if instance.system in ['skier', 'skiers']:
        xsl = xsl - max(xsl)/2
        xwl = xwl - max(xwl)/2
''', '''    if instance.system.startswith('skier'):
        shift = max(xsl)/2
        xwl = xwl - max(xwl)/2
        xsl = xsl - shift
''')
    p = sub(p, '''    plt.contourf(Xsl + scale*Usl, Zsl + scale*Wsl, slab,
                 levels=levels, # norm=norm,
                 cmap=cmap, extend='both')
    plt.contourf(Xwl + scale*Uwl, Zwl + scale*Wwl, weak,
                 levels=levels, # norm=norm,
                 cmap=cmap, extend='both')
''', '''    for data in ((Xsl + scale*Usl, Zsl + scale*Wsl, slab), (Xwl + scale*Uwl, Zwl + scale*Wwl, weak)):
        plt.contourf(*data, levels=levels, cmap=cmap, extend='both')
''')
    p = sub(p, '''    plt.plot(outline(Xsl), outline(Zsl), 'k--', alpha=0.3, linewidth=1)
''', '''    plt.gca().plot(*map(outline, (Xsl, Zsl)), color='k', linestyle='--', alpha=0.3, linewidth=1)
''')
    p = sub(p, '''    x = []
    y = []
    total_heigth = 0

    for line in np.flipud(instance.slab):
        x.append(line[0])
        x.append(line[0])

        y.append(total_heigth)
        total_heigth = total_heigth + line[1]
        y.append(total_heigth)
''', '''    rho, thick = instance.slab[::-1, 0], instance.slab[::-1, 1]
    top = np.cumsum(thick)
    x = np.repeat(rho, 2)
    y = np.column_stack([top - thick, top]).ravel()
''')
    p = sub(p, '''    data = [
        [da/10, 1e3*G[2, :], label + r'$_\\mathrm{I\\!I}$'],
        [da/10, 1e3*G[1, :], label + r'$_\\mathrm{I}$'],
        [da/10, 1e3*G[0, :], label + r'$_\\mathrm{I+I\\!I}$']
    ]
''', '''    names = {2: r'$_\\mathrm{I\\!I}$', 1: r'$_\\mathrm{I}$', 0: r'$_\\mathrm{I+I\\!I}$'}
    data = [[0.1*da, G[k, :]*1000, label + name] for k, name in names.items()]
''')
    s['plot'] = p


@refactor
def utilities(s):
    """Plot utilities written differently."""
    p = s['plot']
    a, b = p.index('    top = grid[0, :-1]\n'), p.index('def significant_digits')
    p = p[:a] + '''    grid = np.asarray(grid)
    n, m = grid.shape
    rows = [0]*(m - 1) + list(range(n - 1)) + [n - 1]*(m - 1) + list(range(n - 1, -1, -1))
    cols = list(range(m - 1)) + [m - 1]*(n - 1) + list(range(m - 1, 0, -1)) + [0]*n
    return grid[rows, cols]


''' + p[b:]
    p = sub(p, '    return -int(np.floor(np.log10(decimal)))\n',
            '    exponent = np.floor(np.log10(decimal))\n    return int(-exponent)\n')
    p = sub(p, '    levels = np.linspace(0, stop, num=int(samples/2), endpoint=True)**tightness\n    return np.unique(np.hstack([-levels[::-1], levels]))\n',
            '    half = np.linspace(0, stop, num=samples//2)**tightness\n    return np.unique(np.concatenate((half, -half)))\n')
    p = sub(p, '''    try:
        c = mc.cnames[color]
    except KeyError:
        c = color
    c = colorsys.rgb_to_hls(*mc.to_rgb(c))
    return colorsys.hls_to_rgb(c[0], max(0, min(1, amount * c[1])), c[2])
''', '''    hue, light, sat = colorsys.rgb_to_hls(*mc.to_rgb(color))
    light = min(max(amount*light, 0), 1)
    return colorsys.hls_to_rgb(hue, light, sat)
''')
    s['plot'] = p


@refactor
def caching(s):
    """A correct cache of the substitute stiffness and a lazily computed eigensystem key."""
    m = s['mixins']
    m = sub(m, '''        # adjust system to substitute system
''', '''        key = (L, support, dof, self.kn, self.kt, self.ratio, self.h, self.t,
               self.A11, self.B11, self.D11, self.kA55, self.zs, self.g, self.p,
               self.slab.tobytes())
        cache = self.__dict__.setdefault("_springs", {})
        if key in cache:
            return cache[key]
        # adjust system to substitute system
''')
    m = sub(m, '        return k\n\n    def calc_a1', '        cache[key] = k\n        return k\n\n    def calc_a1')
    s['mixins'] = m


@refactor
def everything(s):
    for name, f in list(R.items()):
        if name not in ('everything', 'caching', 'touchdown'):
            f(s)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('names', nargs='*')
    p.add_argument('--checks')
    p.add_argument('--tests', action='store_true')
    p.add_argument('--par', type=int, default=2)
    a = p.parse_args()
    names = a.names or list(R)
    checks = a.checks.split(',') if a.checks else [f'C{i:02d}' for i in range(1, 32)]
    bad = 0
    for n in names:
        d = tempfile.mkdtemp(prefix='refactor-')
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        src = {k: open(f'{d}/weac/{k}.py').read() for k in ('eigensystem', 'mixins', 'plot', 'tools')}
        R[n](src)
        for k, v in src.items():
            with open(f'{d}/weac/{k}.py', 'w') as f:
                f.write(v)
        env = {**os.environ, 'WEAC_REPO': d, 'VERIF_NO_WRITE': '1'}
        if a.tests:
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'tests'], cwd=d)
        for c in checks:
            r = subprocess.run([f'{HERE}/check', c], env=env, capture_output=True, text=True, cwd=HERE)
            if r.returncode:
                bad += 1
                print(n, c, r.returncode, re.sub(r'\s+', ' ', r.stdout[-600:] + r.stderr[-300:]), flush=True)
        print('done', n, flush=True)
        shutil.rmtree(d)
    print('alarms:', bad)
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
