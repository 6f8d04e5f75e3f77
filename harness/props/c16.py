"""Touchdown stages and lengths."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C16'
TITLE = 'Touchdown stages and lengths follow from slab bending over the collapsed layer'
TECHNIQUE = 'property-based testing: root bracketing in an independent beam model of the cantilevered slab'
NOTE = (
    'Random slabs, weak layers, inclinations, collapse factors and columns (long and too short): collapse height '
    'against its definition; every threshold and touchdown length must be bracketed by a sign change of the contact '
    'condition of an independently derived beam model with independently computed substitute springs; stage against '
    'the contact conditions at the cut; results after other calls on the same model equal those of a fresh model.'
)


def setup(c):
    c = md.resolve_touch(c)
    s = c['st']
    if s['ratio'] == 1000 and c.get('drop'):
        s.pop('ratio')
    if c.get('short', 0) < 0:
        # column too short for contact at all
        s['L'] = float(-c['short'])
        s['a'] = round(s['L'] * (0.1 + 0.85 * s['f']), 3)
    elif c.get('short'):
        # column whose supported part does not allow for (full) contact
        s['L'] = round(s['a'] * (1 + c['short']), 3)
    # springs of shorter supported parts carry rounding errors of the solver
    s['L'] = max(s['L'], 50.0, s['a'] + 5.0)
    return c


def model(c):
    m = md.build(c)
    seg = md.segments(m, c, 'crack')
    return m, seg


def bracket(f, x, d, what, rising):
    lo, hi = f(x - d), f(x + d)
    if not (lo < 0 < hi if rising else lo > 0 > hi):
        raise Violation(f'{what} = {x!r} is not where its condition changes sign: '
                        f'{lo:.3g} at {x - d:.8g}, {hi:.3g} at {x + d:.8g}')


def rest(T, sec, L, a, td, ratio):
    """The contact condition changes sign at the unsupported length td."""
    sp = T.springs(L - a)
    bracket(lambda x: T.tip_slope(x, sp, ref.unit_stiffness(sec, a - x, ratio, 'rot')), td, min(1e-4 * td, 0.3 * (a - td)),
            'unsupported length in stage C', False)


def check(c, rec):
    c = setup(c)
    s = c['st']
    sec = md.section(c)
    m, seg = model(c)
    L, a, cf, ratio = s['L'], s['a'], s.get('cf', 0.5), s.get('ratio', 1000)
    T = ref.Touchdown(sec, c['phi'], L, cf=cf, ratio=ratio)
    close(rec, 'tc', m.tc, T.tc, cf * sec.t, 1e-9, 'collapse height')
    a1, a2 = float(m.calc_a1()), float(m.calc_a2())

    def f1(x):
        return T.tip_deflection(x) / T.tc - 1

    def f2(x):
        return T.tip_slope(x, T.springs(L - x))

    if not a1 <= a2 * (1 + 1e-9):
        raise Violation(f'first contact at {a1} after full contact at {a2}')
    if a1 >= L * 0.9995:
        rec.label('no contact')
        if not f1(0.998 * L) < 0:
            raise Violation(f'column of length {L} said to be too short for contact')
    else:
        bracket(f1, a1, 1e-5 * a1, 'cut length of first contact', True)
    if a2 >= L * 0.9995:
        rec.label('no full contact')
        if not (f2(0.998 * L) > 0 or f1(0.998 * L) < 0):
            raise Violation(f'column of length {L} said to be too short for full contact')
    else:
        bracket(f2, a2, 1e-5 * a2, 'cut length of full contact', False)
    # stage at this cut
    stage = 'A' if a <= a1 else 'B' if a <= a2 else 'C'
    near = min(abs(a - a1), abs(a - a2)) < 1e-6 * a
    if not near and m.mode != stage:
        raise Violation(f'stage {m.mode} at a cut of {a} with transitions {a1}, {a2}')
    if 0 < a < 0.998 * L:
        direct = 'A' if f1(a) <= 0 else 'B' if f2(a) >= 0 else 'C'
        if m.mode != direct and min(abs(a - a1), abs(a - a2)) > 1e-4 * a:
            raise Violation(f'stage {m.mode} at a cut of {a}, but contact conditions give {direct}')
    rec.label('stage ' + m.mode, 'system ' + s['system'])
    td = float(m.td)
    if m.mode in 'AB':
        if td != a:
            raise Violation(f'unsupported length {td} in stage {m.mode} is not the cut length {a}')
    else:
        if not 0 < td < a:
            raise Violation(f'unsupported length {td} in stage C not within the cut of {a}')
        if a < a2 * 1.002:
            rec.label('right after full contact')
            ok = 0.998 * a <= td <= a
        else:
            ok = False
        if not ok:
            rest(T, sec, L, a, td, ratio)
    # geometry of the segments
    right = s['system'] == 'pst-'
    want = [L - a, td] if right else [td, L - a]
    close(rec, 'segments', seg['li'], want, L, 1e-12, 'segment lengths')
    rec.label('one layer' if len(sec.th) == 1 else 'layered', 'surface load' if c.get('p') else None)
    rec.nontrivial = m.mode != 'A' or bool(c.get('short'))


def results(m):
    return np.array([m.tc, m.td, m.calc_a1(), m.calc_a2(), 'ABC'.index(m.mode)], dtype=float)


def check_history(c, rec):
    """Thresholds do not depend on the cut; nothing depends on earlier calls."""
    c = setup(c)
    s = c['st']
    m, seg = model(c)
    r0 = results(m)
    # another cut in the same column
    kw = {k: s[k] for k in ('L', 'cf', 'ratio') if k in s}
    m2 = md.build(c)
    m2.calc_segments(phi=c['phi'], a=round(c['f2'] * s['L'], 2), **kw)
    r1 = results(m2)
    close(rec, 'thresholds and cut', r1[2:4], r0[2:4], s['L'], 1e-7, 'transition lengths for another cut')
    close(rec, 'thresholds and cut', r1[0], r0[0], s.get('cf', 0.5) * c['weak']['t'], 1e-12, 'collapse height')
    # other settings, then the original ones
    m2.calc_segments(phi=c['phi2'], a=round(c['f2'] * c['L2'], 2), L=c['L2'],
                     cf=round(min(0.98, r0[0] / c['weak']['t'] + 0.9), 3), ratio=c['ratio2'])
    seg2 = md.segments(m2, c, 'crack')
    close(rec, 'history', results(m2), r0, np.abs(r0) + 1e-12, 1e-7, 'collapse height, touchdown length, transitions '
          'and stage after calls with other settings')
    C, C2 = (mm.assemble_and_solve(phi=c['phi'], **g) for mm, g in ((m, seg), (m2, seg2)))
    close(rec, 'history', C2, C, np.abs(C) + 1e-9 * np.abs(C).max(), 1e-6, 'solution after calls with other settings')
    # touchdown switched off
    m3 = md.build(c, touch=False)
    g3 = md.segments(m3, c, 'crack')
    if m3.mode != 'A' or float(m3.td) != s['a'] or abs(sum(g3['li']) - s['L']) > 1e-9 * s['L']:
        raise Violation('slab touchdown although it is switched off')
    rec.label('stage ' + m.mode)
    rec.nontrivial = m.mode != 'A'


def check_transition(c, rec):
    """Cuts right before and right after a transition."""
    c = setup(c)
    s = c['st']
    e = c['eps']
    m, _ = model(c)
    at = [m.calc_a1, m.calc_a2][c['which']]()
    if not at < 0.9 * s['L'] or s['L'] - at < 5:
        rec.label('no transition')
        return
    kw = {k: s[k] for k in ('L', 'cf', 'ratio') if k in s}
    right = s['system'] == 'pst-'
    seen = []
    for a in (at * (1 - e), at * (1 + e)):
        seg = m.calc_segments(phi=c['phi'], a=a, **kw)['crack']
        C = m.assemble_and_solve(phi=c['phi'], **seg)
        # over the supported part and at the end of the unsupported part
        i, j = (0, 1) if right else (1, 0)
        x = np.linspace(0, seg['li'][i], 21)
        w = m.w(m.z(x=x, C=C[:, [i]], l=seg['li'][i], phi=c['phi'], bed=True))
        end = m.w(m.z(x=[seg['li'][j] if right else 0.0], C=C[:, [j]], l=seg['li'][j], phi=c['phi'], bed=False))
        seen.append((m.mode, float(m.td), a, w if right else w[::-1], float(end[0])))
    modes = seen[0][0] + seen[1][0]
    a1, a2 = m.calc_a1(), m.calc_a2()
    if a2 <= a1 * (1 + 3 * e):
        rec.label('both at once')
        return
    if modes != ('AB', 'BC')[c['which']]:
        raise Violation(f'stages {modes} before and after a transition at {at}')
    for mode, td, a, _, end in seen:
        if mode == 'C':
            # the slab comes to rest progressively
            if not 0.1 * a <= td <= a:
                raise Violation(f'unsupported length {td} for a cut of {a} right after full contact at {at}')
            if td < 0.998 * a:
                sec = md.section(c)
                T = ref.Touchdown(sec, c['phi'], s['L'], cf=s.get('cf', 0.5), ratio=s.get('ratio', 1000))
                rest(T, sec, s['L'], a, td, s.get('ratio', 1000))
        elif td != a:
            raise Violation(f'unsupported length {td} in stage {mode} is not the cut length {a}')
        if mode != 'A':
            close(rec, 'contact', end, m.tc, m.tc, 1e-5, 'deflection of the slab in contact')
    if c['which']:
        close(rec, 'continuity', seen[1][3], seen[0][3], m.tc, 0.02 + 20 * e, 'deflection of the supported part before and after '
              'full contact')
    rec.label(modes, 'system ' + s['system'], f'{e:g}')
    rec.nontrivial = True


def transitions():
    return st.builds(lambda a, w, e: {**a, 'which': w, 'eps': e}, gen.config(gen.touch_struct(1)), st.sampled_from([0, 1, 1]),
                     st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3]))


def cases():
    return st.builds(lambda a, d, sh: {**a, 'drop': d, 'short': sh}, gen.config(gen.touch_struct(0.1)),
                     st.sampled_from([True, False]),
                     st.sampled_from([0, 0, 0, 0.002, 0.02, 0.3, 1.0, -60, -150, -300]))


def history():
    return st.builds(lambda a, f, p, L, r: {**a, 'f2': f, 'phi2': p, 'L2': L, 'ratio2': r},
                     gen.config(gen.touch_struct(1), steep=60), gen.num(0.01, 0.9, 2), gen.num(-45, 45),
                     gen.num(500, 20000), gen.num(2, 3000))


SUBS = [
    Sub('stages', cases, check, (640, 10000), 'random columns; non-trivial in contact or too short for it'),
    Sub('transition', transitions, check_transition, (300, 5000), 'cuts on both sides of a transition'),
    Sub('history', history, check_history, (160, 3000), 'random columns; non-trivial in contact'),
]
