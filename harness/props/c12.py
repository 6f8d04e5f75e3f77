"""Incremental energy release rates."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C12'
TITLE = 'Incremental energy release rates equal the energy of opening the crack'
TECHNIQUE = 'property-based testing: independent crack-opening quadrature and energy-balance relations'
NOTE = (
    'Random structures with one or several new cracks (also partial precracks and touchdown): modes compared with '
    'composite Gauss quadrature of the crack opening work; random columns in the thin-weak-layer limit: crack length '
    'times ginc compared with the integral of gdif over crack growth; short cracks compared with gdif. Trusts the '
    'solution vectors, which C03-C05 decide.'
)
GX, GW = np.polynomial.legendre.leggauss(16)


def gauss(l, lam):
    """Composite rule graded towards both ends, where solutions vary fast."""
    e = [0.0]
    while e[-1] < l / 2:
        e.append(e[-1] + 1 / lam + 0.3 * e[-1])
    e = np.array(e) * (l / 2 / e[-1])
    e = np.concatenate([e, (l - e[::-1])[1:]])
    d = np.diff(e) / 2
    return ((e[:-1] + d)[:, None] + d[:, None] * GX).ravel(), (d[:, None] * GW).ravel()


def check_def(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    m = md.build(c)
    g = md.segments(m, c, None)
    phi, sec = c['phi'], md.section(c)
    b = g['both']
    C0 = m.assemble_and_solve(phi=phi, **g['nocrack'])
    C1 = m.assemble_and_solve(phi=phi, **g['crack'])
    lam = sec.lam()
    new = [i for i in range(len(b['li'])) if b['k0'][i] and not b['ki'][i]]
    da = sum(b['li'][i] for i in new)
    I = np.zeros(2)
    A = np.zeros(2)
    for i in new:
        l = b['li'][i]
        if l == 0:
            continue
        x, w = gauss(l, lam)
        a = md.as_state(m, m.z(x, C0[:, [i]], l, phi, bed=True))
        d = md.as_state(m, m.z(x, C1[:, [i]], l, phi, bed=False))
        f1 = sec.sig(a) * sec.sig(d) / sec.kn
        f2 = sec.tau(a) * sec.tau(d) / sec.kt
        I += [np.sum(w * f1), np.sum(w * f2)]
        A += [np.sum(w * np.abs(f1)), np.sum(w * np.abs(f2))]
    rough = m.ginc(C0, C1, phi, **b)
    m.tol = 1e-12
    fine = m.ginc(C0, C1, phi, **b)
    md.labels(rec, c, b)
    if len(np.shape(fine)) != 1 or np.shape(fine)[0] != 3:
        raise Violation(f'ginc returns shape {np.shape(fine)}')
    if not new:
        if np.any(fine != 0) or np.any(rough != 0):
            raise Violation(f'energy release without a new crack: {fine}, {rough}')
        return
    if da == 0:     # undefined: crack of no length
        if not np.all(np.isnan(fine) | (fine == 0)):
            raise Violation(f'energy release of a crack without length: {fine}')
        rec.label('zero length')
        return
    want = np.array([I.sum(), *I]) / (2 * da)
    mag = np.array([A.sum(), *A]) / (2 * da)
    # adaptive quadrature may overlook boundary layers of very long cracks
    long = max(b['li'][i] for i in new) * lam > 3e3
    close(rec, 'ginc (fine quadrature)' + ' of long cracks' * long, fine, want, mag + 1e-9 * mag[0] + 1e-30,
          1e-2 if long else 1e-6, 'ginc')
    allow = len(new) * np.maximum(1e-3, 1e-3 * np.array([A.sum(), *A])) / (2 * da) * np.array([20, 10, 10])
    close(rec, 'ginc / allowed quadrature error', rough, want, allow, 1.0, 'ginc with default quadrature')
    rec.label(f'{min(len(new), 4)} new cracks', 'partial precrack' if not all(b['k0']) else None)
    rec.nontrivial = True


def energies(c, a):
    """(ginc, gdif) of the structure of c with total crack length a."""
    d = {**c, 'st': {**c['st'], 'a': a}}
    m = md.build(d)
    m.tol = 1e-10
    g = md.segments(m, d, None)
    C0 = m.assemble_and_solve(phi=c['phi'], **g['nocrack'])
    C1 = m.assemble_and_solve(phi=c['phi'], **g['crack'])
    return m.ginc(C0, C1, c['phi'], **g['both']), m.gdif(C1, c['phi'], **g['crack'])


def check_balance(c, rec):
    """a*ginc(a) = integral of gdif over crack growth, thin weak layer."""
    k = c['weak']['E'] / c['weak']['t']
    c['weak'] = {**c['weak'], 't': 1e-4, 'E': k * 1e-4}
    sec = md.section(c)
    lam = sec.lam()
    st_ = c['st']
    a = min(st_['a'], 0.6 * st_['L'], 12 / lam)
    if a <= 0:
        return
    x, w = gauss(a, lam)
    G = np.array([energies(c, xi)[1] for xi in x])
    want = w @ G
    got = a * energies(c, a)[0]
    # only the total is an energy; modes do not balance separately
    close(rec, 'energy balance', got[0], want[0], abs(want[0]), 1e-4, 'a*ginc(a) and the integral of gdif')
    md.labels(rec, c)
    rec.nontrivial = True


def check_limit(c, rec):
    """ginc tends to gdif for vanishing crack length."""
    sec = md.section(c)
    a = 1e-4 / sec.lam()
    g1, d1 = energies(c, a)
    g2, d2 = energies(c, a / 2)
    S = md.scales(sec, c['phi'], md.forces(c, {'mi': [c['st'].get('m', 0)]}, sec))
    G = (sec.kn * S[1]**2 + sec.kt * S[0]**2) / 2
    g, d = 2 * g2 - g1, 2 * d2 - d1
    close(rec, 'short cracks', g, d, np.maximum(np.abs(d), 0.01 * d[0]) + 1e-7 * G, 1e-3,
          'ginc and gdif of a vanishing crack')
    md.labels(rec, c)
    rec.nontrivial = True


def multi():
    return st.one_of(gen.skiers_struct(max_seg=7, min_seg=3), gen.auto_struct(), gen.free_struct(max_seg=6))


def cut(systems=('pst-', '-pst', 'vpst-', '-vpst', 'skier')):
    return gen.config(gen.auto_struct(systems=systems))


SUBS = [
    Sub('definition', lambda: gen.config(multi()), check_def, (1200, 20000),
        'random structures and crack patterns; non-trivial with a new crack'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct()), check_def, (160, 3000), 'PST with touchdown'),
    Sub('balance', cut, check_balance, (160, 3000), 'column or skier crack of positive length'),
    Sub('limit', cut, check_limit, (320, 6000), 'columns and skier cracks'),
]
