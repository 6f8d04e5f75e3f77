"""Response to point loads."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C31'
TITLE = 'Responses to skier loads obey reciprocity and stiffness ordering'
TECHNIQUE = 'property-based testing: Maxwell-Betti reciprocity and monotonicity between pairs of solutions'
NOTE = (
    'Random slabs on thin weak layers of given stiffness, random crack patterns in infinite slabs and free columns, two '
    'load positions: work of each load on the displacements caused by the other; work on its own displacement is '
    'positive and does not grow with the stiffness of weak layer and slab nor shrink with additional cracks.'
)
THIN = 1e-4     # mm, the weak layer is a bed of springs


def thin(c):
    """Same springs, no thickness."""
    w = c['weak']
    return {**c, 'weak': {**w, 't': THIN, 'E': w['E'] * THIN / w['t']}}


def response(c, i, j, mi, mj, li, ki):
    """Matrix of the work of the loads (rows) on the displacements caused by them (columns)."""
    sec, phi = md.section(c), c['phi']
    st_ = c['st']
    n = len(li) - 1
    solve = []
    for mass in (None, (i, mi), (j, mj)):
        m_ = [0.0] * n
        if mass:
            m_[mass[0]] = mass[1]
        d = {**c, 'st': {**st_, 'li': li, 'mi': m_, 'ki': ki, 'k0': [True] * len(li)}}
        m, s, C = md.solve(d)
        solve.append([disp(m, s, C, k, phi) for k in (i, j)])
    F = [np.array(m.get_skier_load(v, phi)) for v in (mi, mj)]
    W = np.array([[F[a] @ (solve[b + 1][a] - solve[0][a]) for b in (0, 1)] for a in (0, 1)])
    # rounding of the difference to the solution without skiers
    noise = np.array([[np.abs(F[a]) @ (np.abs(solve[b + 1][a]) + np.abs(solve[0][a])) for b in (0, 1)] for a in (0, 1)])
    return W, noise * 1e-9


def disp(m, s, C, k, phi):
    """Displacements in direction of the loads at joint k, at the top of the slab."""
    z = m.z(float(s['li'][k]), C[:, [k]], s['li'][k], phi, bed=s['ki'][k])
    return np.array([m.w(z)[0], m.u(z, z0=-m.h / 2)[0]])


def check(c, rec):
    c = thin(c)
    li, ki = list(c['st']['li']), list(c['st']['ki'])
    n = len(li) - 1
    i, j = c['i'] % n, c['j'] % n
    W, eps = response(c, i, j, *c['m'], li, ki)
    size = np.sqrt(abs(W[0, 0] * W[1, 1])) + eps.max() * 10
    close(rec, 'reciprocity', W[0, 1], W[1, 0], np.array(size), 1e-5, 'work of each load on the displacements of the other')
    if min(W[0, 0] + eps[0, 0], W[1, 1] + eps[1, 1]) <= 0:
        raise Violation(f'negative work of a load on its own displacement {W}')
    if W[0, 1]**2 > W[0, 0] * W[1, 1] * (1 + 1e-5) + eps.max() * 10 * size:
        raise Violation(f'interaction of loads exceeds their own work {W}')
    # stiffer
    kind, f = c['change'], c['factor']
    d, k2 = c, list(ki)
    if kind == 'weak layer':
        d = {**c, 'weak': {**c['weak'], 'E': c['weak']['E'] * f}}
    elif kind == 'slab':
        d = {**c, 'slab': {**c['slab'], 'C0': c['slab']['C0'] * f}}
    else:
        k2 = [k or close_ for k, close_ in zip(ki, c['close'] + [True] * len(ki))]
    if kind == 'slab' and isinstance(c['slab']['layers'], str):
        kind = 'none'
    V, eps2 = response(d, i, j, *c['m'], li, k2)
    e = (eps + eps2).max() * 10
    P, Q = W - V, 1e-5 * np.abs(W) + e
    if P[0, 0] < -Q[0, 0] or P[1, 1] < -Q[1, 1]:
        raise Violation(f'response grows with stiffness of {kind}: {W.tolist()} {V.tolist()}')
    changed = kind in ('weak layer', 'slab') or any(a != b and l > 1 for a, b, l in zip(ki, k2, li))
    if kind == 'weak layer' and P[0, 0] <= 0 and W[0, 0] > e:
        raise Violation('response does not depend on the weak layer')
    md.labels(rec, {**c, 'st': {**c['st'], 'mi': list(c['m'])}}, {'li': li, 'ki': ki, 'mi': list(c['m'])})
    rec.label('change of ' + kind, 'loads coincide' if i == j else None)
    rec.nontrivial = bool(i != j and changed)


def cases():
    s = st.one_of(gen.skiers_struct(min_seg=3), gen.free_struct(), gen.free_struct()).filter(lambda s: len(s['li']) > 2)
    return st.builds(lambda a, **kw: {**a, **kw}, gen.config(s), i=st.integers(0, 6), j=st.integers(0, 6),
                     m=st.tuples(gen.num(10, 2000), gen.num(10, 2000)).map(list),
                     change=st.sampled_from(['weak layer', 'slab', 'cracks']), factor=gen.num(1.1, 10, 1),
                     close=st.lists(st.booleans(), min_size=7, max_size=7))


SUBS = [Sub('response', cases, check, (1000, 20000), 'pairs of loads and of stiffnesses')]
