"""Material parametrisations and profile database."""
import math

import numpy as np
from hypothesis import strategies as st

import weac
from harness import gen
from harness.core import Sub, Violation, close

ID = 'C25'
TITLE = 'Material parametrisations and profile database match their published laws'
TECHNIQUE = 'property-based testing: closed-form laws, metamorphic monotonicity and model-based database histories'
NOTE = (
    'Random densities in every accepted form, parameters and units compared with the published laws evaluated '
    'element by element; all database names in random capitalisation and random histories of loads and in-place '
    'edits of returned data compared with the documented table.'
)


def forms(rho, form):
    return {'scalar': float(rho[0]), 'int': int(rho[0]), 'array': np.array(rho, dtype=float),
            'ints': np.array([int(r) for r in rho]), 'column': np.array(rho, dtype=float).reshape(-1, 1),
            'numpy': np.float64(rho[0])}[form]


def check_laws(c, rec):
    r = forms(c['rho'], c['form'])
    keep = np.array(r, copy=True)
    T = weac.tools
    kw = c['kw']
    fl = np.vectorize(lambda f, x: f(float(x)), excluded=[0], otypes=[float])
    cases = []
    b = {k: v for k, v in kw.items() if k in ('rho0', 'C0', 'C1')}
    cases.append(('bergfeld', T.bergfeld(r, **b), lambda x: b.get('C0', 6.5) * 1000 * math.pow(
        x / b.get('rho0', 917), b.get('C1', 4.4))))
    g = {k: v for k, v in kw.items() if k in ('C0', 'C1')}
    cases.append(('gerling', T.gerling(r, **g), lambda x: g.get('C0', 6.0) * 1e-10 * math.pow(x, g.get('C1', 4.6))))
    cases.append(('scapozza', T.scapozza(r), lambda x: 5070 * math.pow(x / 917, 5.13)))
    u = {'unit': c['unit']} if c['unit'] else {}
    f = 1e-3 if c['unit'] == 'MPa' else 1.0
    cases.append(('tensile_strength_slab', T.tensile_strength_slab(r, **u), lambda x: f * 240 * math.pow(x / 917, 2.44)))
    for name, got, law in cases:
        want = fl(law, r)
        if np.shape(got) != np.shape(r):
            raise Violation(f'{name}: shape {np.shape(got)} for densities of shape {np.shape(r)}')
        close(rec, name, got, want, np.abs(want), 1e-11, name)
        if not np.all(np.asarray(got) > 0):
            raise Violation(f'{name}: not positive')
        fn = getattr(T, name)
        more = fn(np.asarray(r, dtype=float) * 1.01, **(b if name == 'bergfeld' else g if name == 'gerling' else
                                                       u if name.startswith('tens') else {}))
        if not np.all(more > got):
            raise Violation(f'{name}: not increasing with density')
    if not np.array_equal(r, keep):
        raise Violation('densities modified')
    rec.label(c['form'], 'parameters' if kw else 'defaults', f"unit {c['unit']}")
    rec.nontrivial = True


def check_db(c, rec):
    """Histories of loads and edits of returned data."""
    for name, style, edit, how in c['ops']:
        key = ''.join(ch.upper() if b else ch.lower() for ch, b in zip(name, style + [False] * len(name)))
        want = np.array(gen.db_rows(name), dtype=float)
        if how == 'load':
            lay, E = weac.tools.load_dummy_profile(key)
            close(rec, 'layers', lay, want[:, :2], want[:, :2], 1e-12, f'layers of profile {key!r}')
            close(rec, 'moduli', E, want[:, 2], want[:, 2], 1e-12, f'moduli of profile {key!r}')
            if edit:
                lay[...] = -1
                E[...] = -1
        else:
            m = weac.Layered(system='skier', layers=how + key)
            if c['C0'] is not None:
                m.set_beam_properties(how + key, C0=c['C0'], nu=c['nu'], update=True)
            nu = 0.25 if c['C0'] is None else c['nu']
            table = np.column_stack([want[:, :3], want[:, 2] / (2 * (1 + nu)), np.full(len(want), nu)])
            close(rec, 'slab', m.slab, table, np.abs(table) + 1e-12, 1e-11, f'slab of profile {how + key!r}')
            if edit:
                m.slab[...] = -1
    rec.label('parameters' if c['C0'] is not None else None)
    rec.nontrivial = len(c['ops']) > 1


def check_slab(c, rec):
    """Moduli of custom layers follow the Bergfeld law with given parameters."""
    lay = [list(map(float, r)) for r in c['layers']]
    arg = np.array(lay) if c['form'] == 'array' else [list(r) for r in lay]
    m = weac.Layered(layers=arg)
    m.set_beam_properties(arg, update=True, **c['kw'])
    C0, C1, nu = c['kw'].get('C0', 6.5), c['kw'].get('C1', 4.4), c['kw'].get('nu', 0.25)
    want = np.array([[r, h, C0 * 1000 * math.pow(r / 917, C1)] for r, h in lay])
    table = np.column_stack([want, want[:, 2] / (2 * (1 + nu)), np.full(len(want), nu)])
    close(rec, 'slab', m.slab, table, np.abs(table) + 1e-12, 1e-11, 'layer table')
    if not np.array_equal(np.array(arg, dtype=float), np.array(lay)):
        raise Violation('layers modified')
    rec.nontrivial = True


def laws():
    rho = gen.num(1, 917, 1).filter(lambda r: r >= 1)
    return st.fixed_dictionaries({
        'rho': st.lists(rho, min_size=1, max_size=6),
        'form': st.sampled_from(['scalar', 'int', 'array', 'ints', 'column', 'numpy']),
        'unit': st.sampled_from([None, 'kPa', 'MPa']),
        'kw': st.fixed_dictionaries({}, optional={'rho0': gen.num(500, 1000), 'C0': gen.num(0.5, 20, 1),
                                                  'C1': gen.num(1, 6, 2)})})


def histories():
    op = st.tuples(st.sampled_from(sorted(gen.DB)), st.lists(st.booleans(), max_size=6), st.booleans(),
                   st.sampled_from(['load', 'load', '', 'profile ', 'Snow profile '])).map(list)
    return st.fixed_dictionaries({'ops': st.lists(op, min_size=1, max_size=8),
                                  'C0': st.one_of(st.none(), gen.num(1, 20, 1)), 'nu': gen.num(0, 0.45, 2)})


def custom():
    return st.fixed_dictionaries({'layers': gen.layer_list(8), 'form': st.sampled_from(['list', 'array']),
                                  'kw': st.fixed_dictionaries({}, optional={
                                      'C0': gen.num(0.5, 20, 1), 'C1': gen.num(1, 6, 2), 'nu': gen.num(0, 0.45, 2)})})


SUBS = [
    Sub('laws', laws, check_laws, (4000, 40000), 'random densities, forms and parameters'),
    Sub('database', histories, check_db, (1600, 20000), 'histories of at least two loads'),
    Sub('custom', custom, check_slab, (1600, 20000), 'random custom layers'),
]
