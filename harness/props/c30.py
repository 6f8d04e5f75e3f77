"""Number types and containers of the inputs."""
import numpy as np
from hypothesis import strategies as st

import weac
from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close
from harness.props import c18

ID = 'C30'
TITLE = 'Results do not depend on the container or number type of the inputs'
TECHNIQUE = 'metamorphic property-based testing: the same values in other containers and number types'
NOTE = (
    'Random configurations of every system type given once as Python floats in lists and once with every number and '
    'list in a randomly chosen representation (int, numpy scalars; tuples, integer, read-only, strided and '
    'column-major arrays): properties, segments, solutions, outputs and fields must agree; arguments keep their values.'
)

SCALARS = ['int', 'float', 'float64', 'int64', 'int32']
LISTS = ['list', 'tuple', 'array', 'int array', 'readonly', 'strided']
TABLES = ['list', 'tuples', 'list of arrays', 'array', 'int array', 'readonly', 'strided', 'columns first', 'mixed']


def whole(v):
    return float(v) == int(v)


def scalar(v, how):
    if how == 'float':
        return float(v)
    if how == 'float64' or not whole(v):
        return np.float64(v)
    return {'int': int, 'int64': np.int64, 'int32': np.int32}[how](v)


def sequence(v, how):
    if how in ('list', 'tuple'):
        return {'list': list, 'tuple': tuple}[how](int(x) if whole(x) and not isinstance(x, bool) else x for x in v)
    a = np.array(v)
    if how == 'int array' and a.dtype != bool:
        return a.astype(int) if all(whole(x) for x in v) else a.astype(float)
    if a.dtype != bool:
        a = a.astype(float)
    if how == 'readonly':
        a.flags.writeable = False
    if how == 'strided':
        a = np.repeat(a, 3)[::3]
    return a


def table(v, how):
    if isinstance(v, str):
        return v
    if how == 'list':
        return [[float(x) for x in r] for r in v]
    if how == 'tuples':
        return tuple(tuple(r) for r in v)
    if how == 'list of arrays':
        return [np.array(r, dtype=float) for r in v]
    if how == 'mixed':
        return [[scalar(x, SCALARS[(i + j) % 4]) for j, x in enumerate(r)] for i, r in enumerate(v)]
    a = np.array(v, dtype=float)
    if how == 'int array' and all(whole(x) for r in v for x in r):
        return a.astype(int)
    if how == 'readonly':
        a.flags.writeable = False
    if how == 'strided':
        a = np.repeat(np.repeat(a, 2, axis=0), 3, axis=1)[::2, ::3]
    if how == 'columns first':
        a = np.asfortranarray(a)
    return a


def matrix(a, how):
    """Solution arrays in other layouts."""
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    elif how == 'strided' and a.ndim == 2:
        a = np.repeat(np.repeat(a, 2, axis=0), 3, axis=1)[::2, ::3]
    elif how == 'strided':
        a = np.repeat(a, 2)[::2]
    elif how == 'columns first':
        a = np.asfortranarray(a)
    return a


def arguments(c, how=None):
    """Arguments of calc_segments."""
    s = c['st']
    num = (lambda v, i: float(v)) if how is None else (lambda v, i: scalar(v, how['num'][i % len(how['num'])]))
    if s['system'] == 'skiers':
        d = {}
        for i, k in enumerate(('li', 'mi', 'ki', 'k0')):
            plain = [bool(v) for v in s[k]] if k[0] == 'k' else [float(v) for v in s[k]]
            d[k] = plain if how is None else sequence([bool(v) for v in s[k]] if k[0] == 'k' else s[k], how['seq'][i])
        d['phi'] = num(c['phi'], 0)
        return d
    return {k: num(c['phi'] if k == 'phi' else s[k], i)
            for i, k in enumerate(('phi', 'L', 'a', 'm', 'cf', 'ratio')) if k == 'phi' or k in s}


def model(c, how=None):
    s, w = c['slab'], c['weak']
    num = (lambda v, i: float(v)) if how is None else (lambda v, i: scalar(v, how['num'][i % len(how['num'])]))
    lay = table(s['layers'], 'list' if how is None else how['layers'])
    keep = np.array(lay, dtype=float) if not isinstance(lay, str) else lay
    m = weac.Layered(system=c['st']['system'], layers=lay, touchdown=bool(c['st'].get('touch')))
    m.set_beam_properties(lay, C0=num(s['C0'], 0), C1=num(s['C1'], 1), nu=num(s['nu'], 2))
    m.set_foundation_properties(t=num(w['t'], 3), E=num(w['E'], 4), nu=num(w['nu'], 5), update=True)
    m.set_surface_load(num(c['p'], 6))
    if 'g' in c:
        m.g = num(c['g'], 7)
    if 'lski' in c:
        m.lski = num(c['lski'], 8)
    if isinstance(keep, np.ndarray) and not np.array_equal(keep, np.array(lay, dtype=float)):
        raise Violation('layers modified')
    return m


def results(m, c, args, how):
    out = {'properties': c18.properties(m)}
    system = m.system
    if system == 'skiers':
        before = {k: np.array(args[k]) for k in ('li', 'mi', 'ki', 'k0')}
    segs = m.calc_segments(**args)
    if system == 'skiers' and not all(np.array_equal(before[k], np.array(args[k])) for k in before):
        raise Violation('segment lists modified')
    phi = args['phi']
    C0, C1 = (m.assemble_and_solve(phi=phi, **segs[k]) for k in ('nocrack', 'crack'))
    sol = {'phi': phi, 'segs': segs, 'which': 'crack', 'C0': C0, 'C1': C1, 'C': C1, 'L': args.get('L', 0), 'latest': True}
    out['segments'] = {w: {k: np.asarray(v, dtype=float) for k, v in segs[w].items()} for w in segs}
    out['touchdown'] = [m.mode, float(m.td), float(m.tc)]
    states = c18.states(m, sol)
    lay = how['arrays'] if how else None
    if lay:
        sol = {**sol, 'C0': matrix(C0, lay), 'C1': matrix(C1, lay), 'C': matrix(C1, lay)}
    k = c['k']
    for name in c18.OUTPUTS:
        out[name] = c18.output(m, name, sol, k)
    # fields of arrays in another layout
    x, z, xb = m.rasterize_solution(C=C1, phi=phi, num=9, **segs['crack'])
    if lay:
        x, z, xb = matrix(x, lay), matrix(z, lay), matrix(xb, lay)
    out['fields'] = fields(m, x, z, xb, phi, num_of(how))
    # whole positions
    for j, l in enumerate(segs['crack']['li']):
        pos = [0.0, 7.0, 12.0]
        at = pos if how is None else sequence(pos, how['seq'][j % 4])
        one = pos[1] if how is None else scalar(pos[1], how['num'][j % 9])
        bed = bool(segs['crack']['ki'][j])
        states = states + [[md.as_state(m, m.z(p, C1[:, [j]], l, phi, bed=bed)) for p in (at, one)]]
    return out, states


def fields(m, x, z, xb, phi, num):
    dz, z0 = num(6), num(20)
    return [m.Sxx(z, phi, dz=dz), m.Txz(z, phi, dz=dz), m.Szz(z, phi, dz=dz, unit='MPa'), m.get_zmesh(dz=dz),
            m.principal_stress_slab(z, phi, dz=dz, normalize=True), m.principal_stress_weaklayer(z, sc=num(3), normalize=True),
            m.get_weaklayer_shearstress(xb, z), m.get_weaklayer_normalstress(xb, z, removeNaNs=True),
            m.get_slab_displacement(x, z), m.get_slab_deflection(x, z), m.get_slab_rotation(x, z),
            [m.u(z, z0), m.du_dx(z, z0), m.w(z), m.psi(z), m.N(z), m.M(z), m.V(z), m.sig(z), m.tau(z), m.Gi(z), m.Gii(z)],
            [m.get_skier_load(num(80), phi), m.get_weight_load(phi), m.get_surface_load(phi)]]


def check_long(c, rec):
    """Long cuts of whole millimetres."""
    how, out = c['how'], []
    for h in (None, how):
        m, args = model(c, h), arguments(c, h)
        s = m.calc_segments(**args)['crack']
        C = m.assemble_and_solve(phi=args['phi'], **s)
        x = [[0.0, float(l) // 2, float(l)] for l in s['li']]
        # array of whole positions in the type of the lengths
        at = x if h is None else [[scalar(v, how['num'][5]) for v in p] for p in x]
        out.append([md.as_state(m, m.z(p, C[:, [j]], s['li'][j], args['phi'], bed=bool(s['ki'][j])))
                    for j, p in enumerate(at)])
    sec = md.section(c)
    S = md.scales(sec, c['phi'], S=np.hstack(out[0]))
    for j, (z, y) in enumerate(zip(out[1], out[0])):
        close(rec, 'long', z, y, S[:, None], 1e-7, f'solution of segment {j} of a long column with other number types')
    md.labels(rec, c)
    rec.label(*('number: ' + how['num'][i] for i in (1, 2)), 'cut of more than 50 m' if c['st']['a'] > 5e4 else None)
    rec.nontrivial = c['st']['a'] > 1300


def num_of(how):
    return (lambda v: v) if how is None else (lambda v: scalar(v, how['num'][0]))


def check(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    how = c['how']
    a, sa = results(model(c), c, arguments(c), None)
    b, sb = results(model(c, how), c, arguments(c, how), how)
    x = md.scales(md.section(c), c['phi'])
    for zs, ys in zip(sb, sa):
        for j, (z, y) in enumerate(zip(zs, ys)):
            sc = np.maximum(x, np.abs(y).max(axis=1))[:, None]
            close(rec, 'solution', z, y, sc, 1e-8, f'solution of segment {j} with other number types')
    for k in a:
        c18.same(rec, k, b[k], a[k])
    if c['tool']:
        s, w = c['slab'], c['weak']
        n = [scalar(v, h) for v, h in zip((s['C0'], s['C1'], max(w['E'], 0.2), w['t'], abs(c['phi2'])), how['num'])]
        t1 = weac.tools.touchdown_distance(table(s['layers'], how['layers']), *n)
        t0 = weac.tools.touchdown_distance(table(s['layers'], 'list'), *[float(v) for v in n])
        close(rec, 'tool', t1, t0, np.abs(t0), 1e-6, 'touchdown distance with other number types')
    inv = weac.Inverse(system=c['st']['system'], layers=table(c['slab']['layers'], how['layers']),
                       parameters=sequence([c['slab']['C0'], c['slab']['C1'], c['weak']['E']], how['seq'][0]))
    ref = weac.Inverse(system=c['st']['system'], layers=table(c['slab']['layers'], 'list'),
                       parameters=(float(c['slab']['C0']), float(c['slab']['C1']), float(c['weak']['E'])))
    c18.same(rec, 'Inverse', c18.properties(inv), c18.properties(ref))
    md.labels(rec, c)
    rec.label('layers: ' + how['layers'] if not isinstance(c['slab']['layers'], str) else 'named profile',
              'arrays: ' + how['arrays'], *('number: ' + h for h in set(how['num'])),
              *('list: ' + h for h in set(how['seq']) if c['st']['system'] == 'skiers'), 'tool' if c['tool'] else None,
              'whole numbers' if c.get('whole') else None)
    rec.nontrivial = True


def rounded(c, yes):
    """The same case in whole numbers."""
    if not yes:
        return c
    up = lambda v: max(1.0, float(round(v)))
    s, w, t = c['slab'], c['weak'], c['st']
    lay = s['layers'] if isinstance(s['layers'], str) else [[up(v) for v in r] for r in s['layers']]
    t = {k: v if isinstance(v, (str, bool)) or k in ('ki', 'k0') else [float(round(x)) for x in v] if isinstance(v, list)
         else float(round(v)) if k in ('L', 'a', 'm', 'ratio') else v for k, v in t.items()}
    return {**c, 'slab': {**s, 'layers': lay, 'C0': up(s['C0']), 'C1': up(s['C1']), 'nu': 0.0},
            'weak': {'t': up(w['t']), 'E': up(w['E']), 'nu': 0.0}, 'phi': float(round(c['phi'])), 'st': t,
            'whole': True}


def hows():
    return st.fixed_dictionaries({
        'num': st.lists(st.sampled_from(SCALARS), min_size=9, max_size=9),
        'seq': st.lists(st.sampled_from(LISTS), min_size=4, max_size=4),
        'layers': st.sampled_from(TABLES),
        'arrays': st.sampled_from(['readonly', 'strided', 'columns first'])})


def long_cases():
    s = st.builds(lambda system, L, f, m: {'system': system, 'L': float(L), 'a': float(round(L * f)), 'm': float(m), 'touch': False},
                  st.sampled_from(gen.PST + ['skier']), gen.lognum(2000, 300000).map(round), gen.num(0.1, 0.9, 2), gen.num(0, 200))
    return st.builds(lambda a, how: {**rounded(a, True), 'how': how}, gen.config(s), hows())


def cases():
    how = hows()
    s = st.integers(0, 7).flatmap(lambda k: gen.touch_struct() if k == 0 else gen.struct() if k < 5 else
                                  gen.skiers_struct())
    whole = st.sampled_from([False, False, True])
    return st.builds(lambda a, w, **kw: {**rounded(a, w), **kw}, gen.config(s), whole, how=how, k=st.integers(0, 20),
                     tool=st.sampled_from([False] * 9 + [True]), phi2=gen.num(0, 40))


SUBS = [Sub('representation', cases, check, (480, 8000), 'random configurations in random representations'),
        Sub('long', long_cases, check_long, (200, 4000), 'long columns of whole millimetres')]
