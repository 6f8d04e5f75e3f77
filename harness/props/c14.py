"""Principal stresses of slab and weak layer."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close
from harness.props.c13 import SC, layer_index

ID = 'C14'
TITLE = 'Principal stresses are eigenvalues of the stress state, normalised to strength'
TECHNIQUE = 'property-based testing against a numerical eigenvalue solver'
NOTE = (
    'Random solution vectors and solved systems, mesh sizes, units and strengths: every value compared with the '
    'eigenvalue of the 2x2 stress tensor; normalisation compared with the published strength law of the layer at that '
    'depth; impossible requests must raise. Trusts the stress fields, which C13 and C15 decide.'
)


def eig(xx, zz, xz):
    T = np.stack([np.stack([xx, xz], -1), np.stack([xz, zz], -1)], -2)
    e = np.linalg.eigvalsh(T)
    return {'min': e[..., 0], 'max': e[..., 1]}


def raises(f, what):
    try:
        r = f()
    except ValueError:
        return
    raise Violation(f'{what} is not rejected (returns {np.shape(r)})')


def check(c, rec):
    phi, dz = c['phi'], c['dz']
    sec = md.section(c)
    if 'Z' in c:
        m = md.build(c, system='skiers', touch=False)
        Z = np.array(c['Z'], dtype=float).T * SC[:, None]
    else:
        m, s, C = md.solve(c)
        Z = m.rasterize_solution(C=C, phi=phi, num=c['num'], **s)[1]
        md.labels(rec, c, s)
    zi = np.asarray(m.get_zmesh(dz=dz))[:, 0]
    k = layer_index(zi)
    strength = 240 * (sec.rho[k] / 917)**2.44                       # kPa
    for unit, f in (('kPa', 1.0), ('MPa', 1e-3)):
        S = {n: getattr(m, n)(Z, phi, dz=dz, unit=unit) for n in ('Sxx', 'Szz', 'Txz')}
        want = eig(S['Sxx'], S['Szz'], S['Txz'])
        mag = np.sqrt(S['Sxx']**2 + S['Szz']**2 + 2 * S['Txz']**2) + 1e-30
        for val in ('max', 'min'):
            got = m.principal_stress_slab(Z, phi, dz=dz, unit=unit, val=val)
            close(rec, 'slab', got, want[val], mag, 1e-9, f'{val} principal stress of the slab ({unit})')
        got = m.principal_stress_slab(Z, phi, dz=dz, unit=unit, val='max', normalize=True)
        st_ = strength[:, None] * f
        close(rec, 'slab, normalised', got, want['max'] / st_, mag / st_, 1e-9,
              f'normalised principal stress of the slab ({unit})')
        sig, tau = m.sig(Z, unit=unit), m.tau(Z, unit=unit)
        want = eig(0 * sig, sig, tau)
        mag = np.sqrt(sig**2 + 2 * tau**2) + 1e-30
        for val in ('max', 'min'):
            got = m.principal_stress_weaklayer(Z, unit=unit, val=val)
            close(rec, 'weak layer', got, want[val], mag, 1e-9, f'{val} principal stress of the weak layer ({unit})')
        sc = c['sc']
        got = m.principal_stress_weaklayer(Z, sc=sc, unit=unit, val='min', normalize=True)
        close(rec, 'weak layer, normalised', got, want['min'] / (sc * f), mag / (sc * f), 1e-9,
              f'normalised principal stress of the weak layer ({unit}, sc={sc})')
        got = m.principal_stress_weaklayer(Z, unit=unit, normalize=True)
        close(rec, 'weak layer, normalised', got, want['min'] / (2.6 * f), mag / (2.6 * f), 1e-9,
              f'normalised principal stress of the weak layer ({unit}, default strength)')
    # defaults
    close(rec, 'defaults', m.principal_stress_slab(Z, phi),
          m.principal_stress_slab(Z, phi, dz=2, unit='kPa', val='max', normalize=False),
          np.abs(m.Sxx(Z, phi)).max() + 1, 1e-12, 'defaults of principal_stress_slab')
    close(rec, 'defaults', m.principal_stress_weaklayer(Z),
          m.principal_stress_weaklayer(Z, unit='kPa', val='min', normalize=False),
          np.abs(m.sig(Z, unit='kPa')).max() + 1, 1e-12, 'defaults of principal_stress_weaklayer')
    u = 'kPa' if c['col'] % 2 else 'MPa'
    raises(lambda: m.principal_stress_slab(Z, phi, dz=dz, unit=u, val='min', normalize=True),
           'normalisation of the compressive principal stress of the slab')
    raises(lambda: m.principal_stress_weaklayer(Z, unit=u, val='max', normalize=True),
           'normalisation of the tensile principal stress of the weak layer')
    raises(lambda: m.principal_stress_slab(Z, phi, dz=dz, val=c['bad'], normalize=bool(c['col'] % 3)),
           f'principal stress component {c["bad"]!r} (slab)')
    raises(lambda: m.principal_stress_weaklayer(Z, val=c['bad'], normalize=bool(c['col'] % 3)),
           f'principal stress component {c["bad"]!r} (weak layer)')
    rec.label('one layer' if len(sec.th) == 1 else 'layered')
    rec.nontrivial = len(sec.th) > 1


def extra():
    return st.fixed_dictionaries({
        'dz': st.one_of(st.just(2), gen.num(1, 60), gen.num(0.7, 10, 1)), 'col': st.integers(0, 11),
        'sc': st.one_of(st.just(2.6), gen.lognum(0.05, 50)),
        'bad': st.sampled_from(['mid', 'Max', 'mean', '', 'MIN', 'tresca'])})


def vectors():
    col = st.lists(gen.num(-100, 100, 2), min_size=6, max_size=6)
    return st.builds(lambda a, z, e: {**a, 'Z': z, **e}, gen.base(), st.lists(col, min_size=1, max_size=4), extra())


def solved():
    return st.builds(lambda a, e, n: {**a, **e, 'num': n}, gen.config(gen.any_struct()), extra(), st.integers(5, 40))


SUBS = [
    Sub('vectors', vectors, check, (800, 16000), 'random solution vectors; non-trivial with several layers'),
    Sub('solved', solved, check, (400, 8000), 'random solved systems; non-trivial with several layers'),
]
