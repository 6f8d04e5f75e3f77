"""Potential energies."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close
from harness.props.c12 import gauss

ID = 'C23'
TITLE = 'Potential energies satisfy the energy theorems of the column'
TECHNIQUE = 'property-based testing: independent energy quadrature and energy theorems'
NOTE = (
    'Random columns cut from either side with and without touchdown: energies compared with Gauss quadrature of the '
    'energy densities within a bound on the sampling error derived from their variation; quadratic scaling with the '
    'loads; Clapeyron\'s theorem in the thin-weak-layer limit. Trusts the solution vectors, which C03-C05 decide.'
)
NUM = 2500


def densities(sec, S, phi, bed):
    """Strain energy density and load potential density."""
    det = sec.A * sec.D - sec.B**2
    u, w, psi, N, M, V = S
    e = (sec.D * N**2 - 2 * sec.B * N * M + sec.A * M**2) / (2 * det) + V**2 / (2 * sec.kA55)
    if bed:
        e = e + sec.sig(S)**2 / (2 * sec.kn) + sec.tau(S)**2 / (2 * sec.kt)
    qn, qt = sec.q(phi)
    pn, pt = sec.ps(phi)
    f = -((qn + pn) * w + qt * (u + sec.zs * psi) + pt * (u - sec.h / 2 * psi))
    return e, f, np.abs(qn + pn) * np.abs(w) + np.abs(qt * (u + sec.zs * psi)) + np.abs(pt * (u - sec.h / 2 * psi))


def integrate(c, m, s, C, sec, num=NUM):
    """(strain energy, load potential) with bounds of the sampling error."""
    phi, lam = c['phi'], sec.lam()
    out, lim = np.zeros(2), np.zeros(2)
    tot = float(np.sum(s['li']))
    peak = np.zeros(2)
    var = np.zeros(2)
    for i, (l, k) in enumerate(zip(s['li'], s['ki'])):
        if l == 0:
            continue
        x, w = gauss(l, lam)
        xa = np.concatenate([[0], x, [l]])
        S = md.as_state(m, m.z(xa, C[:, [i]], l, phi, bed=bool(k)))
        e, f, mag = densities(sec, S, phi, k)
        out += [w @ e[1:-1], w @ f[1:-1]]
        for j, v in enumerate((e, f)):
            var[j] += np.sum(np.abs(np.diff(v)))
            peak[j] = max(peak[j], np.max(np.abs(v)))
        lim[1] += 1e-9 * (w @ mag[1:-1])
    lim += tot / num * (3 * peak + 1.5 * var) + 1e-9 * np.abs(out)
    return out, lim


def column(c):
    m = md.build(c)
    # Without touchdown the set-up of segments may leave out the inclination
    s = md.segments(m, c, phi=c.get('setup'))
    C = m.assemble_and_solve(phi=c['phi'], **s)
    return m, s, C


def check_values(c, rec):
    touch = c['st'].get('touch')
    if touch:
        c = md.resolve_touch(c)
    m, s, C = column(c)
    sec, phi, L = md.section(c), c['phi'], c['st']['L']
    num = c.get('num', NUM)
    want, lim = integrate(c, m, s, C, sec, num)
    right = c['st']['system'] == 'pst-'
    if touch and m.mode == 'C':
        T = ref.Touchdown(sec, phi, L, cf=c['st'].get('cf', 0.5), ratio=c['st']['ratio'])
        rest = c['st']['a'] - m.td
        j = -1 if right else 0
        i = 1 if right else 0
        x = s['li'][i] if right else 0.0
        S = md.seg_state(m, s, C, i, x, phi)[:, j]
        kR = ref.unit_stiffness(sec, rest, c['st']['ratio'], 'rot')
        spring = kR * S[2]**2 / 2
        qt, pt = sec.q(phi)[1], sec.ps(phi)[1]
        work = rest * (T.qn * T.tc + qt * (S[0] + sec.zs * S[2]) + pt * (S[0] - sec.h / 2 * S[2]))
        want += [spring, -work]
        lim += [1e-6 * spring, 1e-9 * abs(work) + 1e-6 * rest * T.qn * T.tc * 1e-3]
        rec.label('spring energy decisive' if spring > lim[0] / 2 else None)
    got = np.array([m.internal_potential(C, phi, L, num=num, **s), m.external_potential(C, phi, L, num=num, **s)])
    rough = np.array([m.internal_potential(C, phi, L, **s), m.external_potential(C, phi, L, **s)])
    if not np.isfinite(got).all():
        raise Violation(f'energies {got}')
    close(rec, 'energy / sampling bound', got, want, lim, 1.0, 'internal and external potential')
    r = np.max(lim / np.maximum(np.abs(want), 1e-3 * np.max(np.abs(want))))
    rec.label('within 0.3 %' if r < 3e-3 else 'within 1 %' if r < 1e-2 else 'within 5 %' if r < 0.05 else 'coarse')
    close(rec, 'energy / sampling bound (default)', rough, want, lim * num / 250, 1.0, 'potentials with default sampling')
    tot = m.total_potential(C, phi, L, **s)
    close(rec, 'sum', tot, rough.sum(), np.abs(rough).sum(), 1e-12, 'total potential')
    if not touch and got[0] < 0:
        raise Violation(f'negative strain energy {got[0]}')
    md.labels(rec, c, s)
    rec.label(f'stage {m.mode}' if touch else 'no touchdown')
    rec.nontrivial = True


def check_scaling(c, rec):
    """Energies of a linear structure are quadratic in the loads."""
    k = c.pop('k')
    m, s, C = column(c)
    d = {**c, 'g': c.get('g', 9810.0) * k, 'p': c['p'] * k}
    m2, s2, C2 = column(d)
    L, phi = c['st']['L'], c['phi']
    for name in ('internal_potential', 'external_potential', 'total_potential'):
        a = getattr(m, name)(C, phi, L, **s)
        b = getattr(m2, name)(C2, phi, L, **s2)
        ref_ = abs(m.internal_potential(C, phi, L, **s))
        close(rec, 'scaling', b / k**2, a, max(abs(a), ref_), 1e-7, name)
    md.labels(rec, c, s)
    rec.nontrivial = True


def check_mirror(c, rec):
    """Energies do not depend on the side the column is cut from."""
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    out = []
    for flip in (False, True):
        d = dict(c)
        if flip:
            system = {'pst-': '-pst', '-pst': 'pst-'}[c['st']['system']]
            d = {**c, 'phi': -c['phi'], 'st': {**c['st'], 'system': system}}
        m, s, C = column(d)
        L, phi = d['st']['L'], d['phi']
        out.append([getattr(m, k)(C, phi, L, **s) for k in
                    ('internal_potential', 'external_potential', 'total_potential')])
        if flip:
            # equal up to where samples are placed
            _, lim = integrate(d, m, s, C, md.section(d), 250)
            lim = np.append(lim, lim.sum()) * 1e-3
    close(rec, 'mirror', out[1], out[0], lim, 1.0, 'energies of the mirrored column')
    md.labels(rec, c, s)
    rec.label(f'stage {m.mode}' if c['st'].get('touch') else 'no touchdown')
    rec.nontrivial = True


def check_clapeyron(c, rec):
    """Work of the dead loads is twice the strain energy."""
    k = c['weak']['E'] / c['weak']['t']
    c['weak'] = {**c['weak'], 't': 1e-4, 'E': k * 1e-4}
    m, s, C = column(c)
    sec, phi, L = md.section(c), c['phi'], c['st']['L']
    _, lim = integrate(c, m, s, C, sec)
    i = m.internal_potential(C, phi, L, num=NUM, **s)
    e = m.external_potential(C, phi, L, num=NUM, **s)
    close(rec, 'theorem', e, -2 * i, 2 * lim[0] + lim[1] + 1e-5 * abs(e), 1.0, 'external and minus twice the internal potential')
    r = (2 * lim[0] + lim[1]) / abs(e)
    rec.label('within 0.3 %' if r < 3e-3 else 'within 1 %' if r < 1e-2 else 'within 5 %' if r < 0.05 else 'coarse')
    md.labels(rec, c, s)
    rec.nontrivial = True


def spring():
    """Columns in full contact whose spring energy exceeds the sampling error."""
    def fix(c):
        c['st'] = {**c['st'], 'stage': 'C', 'ratio': max(c['st']['ratio'], 500)}
        return {**c, 'num': 60000}
    return gen.config(gen.touch_struct(2.0)).map(fix)


def cut():
    setup = st.one_of(st.none(), st.none(), gen.num(-45, 45), st.just(0))
    return st.builds(lambda a, p: a if p is None else {**a, 'setup': p}, gen.config(gen.auto_struct(systems=('pst-', '-pst'))), setup)


SUBS = [
    Sub('values', cut, check_values, (240, 6000), 'columns cut from either side'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct()), check_values, (120, 3000), 'columns with touchdown'),
    Sub('scaling', lambda: st.builds(lambda a, k: {**a, 'k': k}, cut(), gen.num(0.1, 9, 2)), check_scaling, (160, 3000),
        'pairs of columns under scaled loads'),
    Sub('spring', spring, check_values, (16, 600), 'columns in full contact, fine sampling'),
    Sub('mirror', lambda: st.one_of(cut(), gen.config(gen.touch_struct())), check_mirror, (160, 3000), 'pairs of mirrored columns'),
    Sub('clapeyron', cut, check_clapeyron, (160, 3000), 'columns with thin weak layers'),
]
