"""Agreement with the independent reference solution."""
import numpy as np

from harness import gen
from harness import model as md
from harness.core import Sub, close

ID = 'C05'
TITLE = 'Solutions agree with an independent solution of the governing equations'
TECHNIQUE = ('differential property-based testing against an independent solution (chained matrix '
             'exponentials, banded solve)')
NOTE = ('Random structures of every system type including touchdown and extreme sizes: displacements and '
        'section forces at nine points of every segment against harness/ref.py, which shares no code '
        'with weac. Limit: segments of the reference are capped in number, columns up to 500 m.')
ASSUMPTIONS = ['plane-strain first-order shear-deformable laminate on a weak layer, as in the model description']


def compare(c, rec, tol):
    m, s, C = md.solve(c)
    sec = md.section(c)
    R = md.reference(c, s, m, sec)
    S = md.scales(sec, c['phi'], md.forces(c, s, sec), R.s)
    for i in range(len(s['li'])):
        x, want = R.seg_nodes(i)
        pick = np.unique(np.linspace(0, len(x) - 1, 9).astype(int))
        x, want = x[pick], want[:, pick]
        got = md.seg_state(m, s, C, i, x, c['phi'])
        close(rec, 'state', got, want, S[:, None], tol,
              f'state (u, w, psi, N, M, V) in segment {i}')
    md.labels(rec, c, s)
    return m, s


def check(c, rec):
    m, s = compare(c, rec, 1e-6)
    rec.nontrivial = any(l > 0 and not k for l, k in zip(s['li'], s['ki'])) or any(v > 0 for v in s['mi'])


def check_touch(c, rec):
    c = md.resolve_touch(c)
    m, s = compare(c, rec, 2e-6)
    rec.label('stage ' + m.mode)
    rec.nontrivial = m.mode in 'BC'


def extreme():
    st = gen.st
    w = st.fixed_dictionaries({'t': gen.lognum(0.2, 200), 'E': gen.lognum(0.01, 50),
                               'nu': gen.num(0, 0.45, 2)})
    big = st.fixed_dictionaries({'system': st.sampled_from(gen.PST + ['skier']),
                                 'L': gen.lognum(5e4, 5e5), 'a': gen.num(1, 4000),
                                 'touch': st.just(False)})
    many = gen.skiers_struct(max_seg=25, min_seg=10)
    many2 = gen.free_struct(max_seg=20)
    lay = st.one_of(
        st.lists(st.tuples(gen.num(60, 700), gen.lognum(1, 900)).map(list), min_size=1, max_size=4),
        st.lists(st.tuples(gen.num(60, 550), gen.num(2, 60)).map(list), min_size=10, max_size=30))
    return st.fixed_dictionaries({
        'slab': st.fixed_dictionaries({'layers': lay}), 'weak': w, 'phi': gen.phi(89),
        'p': gen.surface(), 'st': st.one_of(big, many, many2)})


def check_extreme(c, rec):
    if 'L' in c['st']:      # bound the size of the reference system
        cap = 3e4 / md.section(c).lam()
        if c['st']['L'] > cap:
            c['st']['L'] = max(round(cap, 1), c['st']['a'] + 1000)
            rec.label('length capped')
    m, s = compare(c, rec, 1e-5)
    rec.label('long' if sum(s['li']) > 5e4 else 'many segments' if len(s['li']) > 9 else None)
    rec.nontrivial = sum(s['li']) > 5e4 or len(s['li']) > 9


SUBS = [
    Sub('reference', lambda: gen.config(gen.any_struct()), check, (2400, 40000),
        'random slab, weak layer, loads and structure; non-trivial with an open crack or a skier load'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct(), steep=80), check_touch, (480, 8000),
        'random PST with touchdown; non-trivial in stages B and C'),
    Sub('extreme', extreme, check_extreme, (320, 6000),
        'hundreds of metres, many segments, many or extreme layers; non-trivial if beyond 50 m or 9 segments'),
]
