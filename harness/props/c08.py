"""Linearity in the loads and similarity."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, close

ID = 'C08'
TITLE = 'Responses are linear in the loads and scale with stiffness'
TECHNIQUE = 'metamorphic property-based testing: scaled and superposed loads, scaled units'
NOTE = ('Random structures: load factors, stiffness factors, change of the length unit, separate load '
        'cases, decomposition of the inclination; states and energy release rates of the runs are '
        'related.')
GRID = np.array([0.0, 0.13, 0.37, 0.5, 0.71, 1.0])


def run(c, ginc=False):
    """States at fixed relative positions of all segments, gdif and ginc."""
    m = md.build(c)
    m.tol = 1e-12
    g = md.segments(m, c, None)
    s = g['crack']
    C = m.assemble_and_solve(phi=c['phi'], **s)
    S = np.hstack([md.seg_state(m, s, C, i, GRID * s['li'][i], c['phi'])
                   for i in range(len(s['li']))])
    Z = np.hstack([m.z(GRID * s['li'][i], C[:, [i]], s['li'][i], c['phi'], bed=s['ki'][i])
                   for i in range(len(s['li']))])
    out = {'state': S, 'sig': m.sig(Z), 'tau': m.tau(Z), 'gdif': m.gdif(C, c['phi'], **s), 's': s}
    if ginc:
        C0 = m.assemble_and_solve(phi=c['phi'], **g['nocrack'])
        out['ginc'] = m.ginc(C0, C, c['phi'], **g['both'])
    return out


def new_crack(c):
    s = c['st']
    if 'li' in s:
        return sum(l for l, k, k0 in zip(s['li'], s['ki'], s['k0']) if k0 and not k) > 0
    return s['a'] > 0


def compare(rec, what, got, want, c, sec, fac, scale=None):
    """fac: factors of (u, w, psi, N, M, V, stress, G) relating want to got."""
    S0 = md.scales(sec, c['phi'], md.forces(c, want['s'], sec), want['state'])
    if scale is not None:
        S0 = np.maximum(S0, scale)
    f = np.array(fac[:6])
    close(rec, what, got['state'], want['state'] * f[:, None], (S0 * f)[:, None], 1e-6,
          f'{what}: state (u, w, psi, N, M, V)')
    ss = max(np.abs(want['sig']).max(), sec.kn * S0[1])
    st_ = max(np.abs(want['tau']).max(), sec.kt * S0[0])
    close(rec, what, got['sig'], want['sig'] * fac[6], ss * fac[6], 1e-6, f'{what}: normal stress')
    close(rec, what, got['tau'], want['tau'] * fac[6], st_ * fac[6], 1e-6, f'{what}: shear stress')
    G = (sec.kn * S0[1]**2 + sec.kt * S0[0]**2) / 2
    for k, tol in (('gdif', 1e-6), ('ginc', 1e-5)):
        if k in want and k in got:
            close(rec, what + ', ' + k, got[k], want[k] * fac[7], max(np.abs(want[k]).max(), G) * fac[7], tol,
                  f'{what}: {k}')


def check_factor(c, rec):
    """Loads times a factor; moduli and loads times a factor; length unit."""
    f = c.pop('f')
    gi = new_crack(c)
    base = run(c, gi)
    sec = md.section(c)
    d = {**c, 'g': c.get('g', 9810.0) * f, 'p': c['p'] * f}
    compare(rec, 'loads x factor', run(d, gi), base, c, sec, [f] * 7 + [f * f])
    if not isinstance(c['slab']['layers'], str):
        d = {**d, 'slab': {**c['slab'], 'C0': c['slab'].get('C0', 6.5) * f},
             'weak': {**c['weak'], 'E': c['weak']['E'] * f}}
        compare(rec, 'loads and moduli x factor', run(d, gi), base, c, sec,
                [1, 1, 1, f, f, f, f, f])
        # lengths in another unit: stresses and moduli are kept
        d = dict(c)
        d['slab'] = {**c['slab'], 'layers': [[r, h * f] for r, h in c['slab']['layers']]}
        d['weak'] = {**c['weak'], 't': c['weak']['t'] * f}
        d['g'] = c.get('g', 9810.0) / f
        s = dict(c['st'])
        for k in ('L', 'a'):
            if k in s:
                s[k] = s[k] * f
        if 'm' in s:
            s['m'] = s['m'] * f * f
        if 'li' in s:
            s['li'] = [v * f for v in s['li']]
            s['mi'] = [v * f * f for v in s['mi']]
        d['st'] = s
        compare(rec, 'lengths x factor', run(d, gi), base, c, sec,
                [f, f, 1, f, f * f, f, 1, f])
        rec.label('moduli and lengths')
    md.labels(rec, c, base['s'])
    rec.label('ginc' if gi else None)
    rec.nontrivial = f != 1


def check_superposition(c, rec):
    """Weight, surface load and skiers add up; slope angles decompose."""
    sec = md.section(c)
    st_ = c['st']

    def no_skier(d):
        s = dict(d['st'])
        if 'm' in s:
            s['m'] = 0
        if 'mi' in s:
            s['mi'] = [0] * len(s['mi'])
        return {**d, 'st': s}

    full = run(c)
    only_p = run({**c, 'g': 0.0})
    no_p = run({**c, 'p': 0})
    weight = run(no_skier({**c, 'p': 0}))
    S0 = md.scales(sec, c['phi'], md.forces(c, full['s'], sec),
                   np.hstack([r['state'] for r in (full, only_p, no_p, weight)]))

    def add(*rs):
        return {'state': sum(k * r['state'] for k, r in rs), 'sig': sum(k * r['sig'] for k, r in rs),
                'tau': sum(k * r['tau'] for k, r in rs), 's': full['s']}

    one = [1] * 8
    compare(rec, 'surface load + other loads', full, add((1, only_p), (1, no_p)), c, sec, one, S0)
    skier = add((1, no_p), (-1, weight))
    # the skier part does not depend on the other loads and is proportional to mass
    k = c['k']
    s = dict(st_)
    if 'm' in s:
        s['m'] = s['m'] * k
    if 'mi' in s:
        s['mi'] = [v * k for v in s['mi']]
    heavier = run({**c, 'st': s})
    noskier = run(no_skier(c))
    compare(rec, 'skier load x mass', heavier, add((1, noskier), (k, skier)), c, sec, one,
            np.maximum(S0, np.abs(heavier['state']).max(axis=1)))
    zero = run({**c, 'g': 0.0, 'p': 0})
    close(rec, 'unloaded', zero['state'], 0 * zero['state'], S0[:, None], 1e-9, 'unloaded slab')
    if st_['system'] not in ('vpst-', '-vpst'):
        r = np.deg2rad(c['phi'])
        n, t = run({**c, 'phi': 0}), run({**c, 'phi': 90})
        S1 = np.maximum(S0, np.abs(np.hstack([n['state'], t['state']])).max(axis=1))
        compare(rec, 'slope angle', full, add((np.cos(r), n), (np.sin(r), t)), c, sec, one, S1)
        rec.label('angle')
    md.labels(rec, c, full['s'])
    rec.nontrivial = bool(c['p']) or any(v > 0 for v in full['s']['mi'])


def factor():
    return st.builds(lambda a, f: {**a, 'f': f}, gen.config(gen.any_struct()),
                     gen.lognum(0.05, 20).filter(lambda f: f != 1))


def superpos():
    return st.builds(lambda a, k, p: {**a, 'k': k, 'p': p if p else a['p']},
                     gen.config(gen.any_struct()), gen.num(0.1, 5, 1),
                     st.one_of(st.just(0), gen.lognum(1e-5, 0.01)))


SUBS = [
    Sub('factors', factor, check_factor, (640, 12000),
        'random configuration with a factor on loads, on loads and moduli, on lengths'),
    Sub('superposition', superpos, check_superposition, (480, 8000),
        'random configuration; non-trivial with surface or skier load'),
]
