"""Histories of calls on several models."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, pristine
from harness import model as md
from harness.core import Sub, Violation, close

import weac

ID = 'C18'
TITLE = 'Results depend on current inputs only, not on the history of calls'
TECHNIQUE = 'model-based testing of random call histories against freshly built models'
NOTE = (
    'Random histories of up to 14 operations on up to three models of different system types used in turn; every '
    'result is compared with that of a model with the same current settings in a process without history, all arguments with copies '
    'taken before the call, all returned objects with copies taken when they were returned; histories in which the caller '
    'overwrites arguments and returned arrays.'
)


class Frozen:
    """Arguments and results together with copies of them."""

    def __init__(self):
        self.items = []

    def add(self, what, obj):
        self.items.append((what, obj, copy.deepcopy(obj)))
        return obj

    def check(self):
        for what, obj, ref in self.items:
            if not equal(obj, ref):
                raise Violation(f'{what} changed from {ref} to {obj}')


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, float) and a != a:
        return b != b
    return type(a) is type(b) and a == b


def same(rec, what, a, b):
    """Results of the model with a history and of a fresh model."""
    if isinstance(a, dict):
        for k in b:
            same(rec, f'{what}[{k}]', a[k], b[k])
        return
    if isinstance(a, (list, tuple)) and not np.isscalar(a):
        if len(a) != len(b):
            raise Violation(f'{what}: {len(a)} results, fresh model returns {len(b)}')
        for i, (x, y) in enumerate(zip(a, b)):
            same(rec, f'{what}[{i}]', x, y)
        return
    if a is None or isinstance(a, str):
        if a != b:
            raise Violation(f'{what}: {a!r}, fresh model returns {b!r}')
        return
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        raise Violation(f'{what}: {a}, fresh model returns {b}')
    ok = ~np.isnan(b)
    if not b.size:
        return
    # rows of matrices carry different quantities
    sc = np.broadcast_to(np.max(np.abs(np.where(ok, b, 0)), axis=-1, keepdims=True), b.shape) if b.ndim else np.abs(b)
    close(rec, 'fresh model', a[ok], b[ok], sc[ok] + 1e-30, 1e-8, what + ' and that of a fresh model')


def seg_args(system, p):
    """Arguments of calc_segments for a system from drawn parameters."""
    if system == 'skiers':
        n = len(p['li'])
        ki = [True] + [bool(k) for k in p['ki'][:n - 2]] + [True]
        return dict(li=list(p['li']), mi=list(p['mi'][:n - 1]), ki=ki, k0=[True] * n, phi=p['phi'])
    d = dict(L=p['L'], a=round(p['f'] * p['L'], 2), phi=p['phi'], cf=0.95, ratio=p['ratio'])
    if system == 'skier':
        d['m'] = p['m']
    return d


OUTPUTS = ['raster', 'gdif', 'ginc', 'stress', 'principal', 'weak', 'helpers', 'energy', 'z', 'derivatives']


def output(m, name, sol, k):
    phi, g = sol['phi'], sol['segs']
    which = sol['which']
    s = g[which]
    C = sol['C']
    if name == 'raster':
        return m.rasterize_solution(C=C, phi=phi, num=10 + k, **s)
    if name == 'gdif':
        return m.gdif(C, phi, unit=['kJ/m^2', 'J/m^2', 'N/mm'][k % 3], **s)
    if name == 'ginc':
        da = sum(l for l, a, b in zip(s['li'], g['both']['k0'], g['both']['ki']) if a and not b)
        return m.ginc(sol['C0'], sol['C1'], phi, **g['both']) if da > 0 else None
    x, z, xb = m.rasterize_solution(C=C, phi=phi, num=8, **s)
    if name == 'stress':
        return [m.Sxx(z, phi, dz=5 + k), m.Txz(z, phi, unit='MPa'), m.Szz(z, phi, dz=7)]
    if name == 'principal':
        return [m.principal_stress_slab(z, phi, dz=6 + k, normalize=bool(k % 2)),
                m.principal_stress_weaklayer(z, normalize=bool(k % 2))]
    if name == 'weak':
        return [m.get_weaklayer_shearstress(xb, z, unit='kPa', removeNaNs=bool(k % 2)),
                m.get_weaklayer_normalstress(xb, z)]
    if name == 'helpers':
        return [m.get_slab_displacement(x, z, loc=['top', 'mid', 'bot'][k % 3], unit='cm'),
                m.get_slab_deflection(x, z), m.get_slab_rotation(x, z)]
    if name == 'energy':
        if m.system not in ('pst-', '-pst') or not sol['latest']:
            return None
        return [m.internal_potential(C, phi, sol['L'], **s), m.external_potential(C, phi, sol['L'], **s),
                m.total_potential(C, phi, sol['L'], **s)]
    if name == 'z':
        i = k % len(s['li'])
        return m.z(np.array([0.0, 0.4, 1.0]) * s['li'][i], C[:, [i]], s['li'][i], phi, bed=bool(s['ki'][i]))
    return [m.dz_dx(z, phi), m.dz_dxdx(z, phi), m.calc_system_matrix(), m.get_load_vector(phi)]


def solve(m, args, which, frozen=None, tag=''):
    """Segment set-up and solutions; returns everything a user could keep."""
    kw = frozen.add(tag + 'arguments of calc_segments', args) if frozen else copy.deepcopy(args)
    segs = m.calc_segments(**kw)
    if frozen:
        frozen.add(tag + 'segments', segs)
    C0 = m.assemble_and_solve(phi=args['phi'], **segs['nocrack'])
    C1 = m.assemble_and_solve(phi=args['phi'], **segs['crack'])
    sol = {'phi': args['phi'], 'segs': segs, 'which': which, 'C0': C0, 'C1': C1,
           'C': C1 if which == 'crack' else C0, 'L': args.get('L', 0), 'latest': True, 'args': args}
    if frozen:
        frozen.add(tag + 'solution constants', C0)
        frozen.add(tag + 'solution constants', C1)
    return sol


def properties(m):
    return {k: np.array(getattr(m, k), dtype=float) for k in
            ('A11', 'B11', 'D11', 'kA55', 'K0', 'kn', 'kt', 'h', 't', 'zs', 'slab', 'p')}


PROBE = np.array([[0.3, -2, 1], [1e-4, -3e-4, 2e-4], [0.6, -0.2, 2], [-2e-4, 1e-4, 3e-4], [2e-4, -1e-4, 0],
                  [3e-7, 1e-7, -2e-7]])


def probe(m, k):
    """Everything that depends on the properties only, evaluated at fixed solution vectors."""
    dz, phi = [10, 5, 2][k], [30, -20, 0][k]
    Z = PROBE
    return {
        'mesh': m.get_zmesh(dz=dz), 'Sxx': m.Sxx(Z, phi, dz=dz), 'Txz': m.Txz(Z, phi, dz=dz), 'Szz': m.Szz(Z, phi, dz=dz),
        'principal': m.principal_stress_slab(Z, phi, dz=dz, val='max'),
        'normalised': m.principal_stress_slab(Z, phi, dz=dz, val='max', normalize=True),
        'forces': [m.N(Z), m.M(Z), m.V(Z), m.sig(Z), m.tau(Z), m.eps(Z), m.gamma(Z), m.Gi(Z), m.Gii(Z)],
        'displacements': [m.u(Z, z0=z0) for z0 in (-m.h / 2, 0, m.h / 2)],
        'loads': [m.get_weight_load(phi), m.get_surface_load(phi), m.get_skier_load(80, phi)],
    }


def variation(mod, op, p):
    """Change a single property of the current slab or weak layer."""
    p = dict(p)
    what = p.pop('like')
    if op == 'weak':
        return {**mod['weak'], what: p[what]}
    cur = copy.deepcopy(mod['slab'])
    if isinstance(cur['layers'], str):
        cur = {**cur, 'layers': [[r, h] for r, h, _ in gen.db_rows(cur['layers'])]}
    if what == 'densities':
        cur['layers'] = [[min(600, max(50, r * p['f'])), h] for r, h in cur['layers']]
    elif what == 'order':
        cur['layers'] = cur['layers'][::-1]
    elif what == 'thickness':
        i = p['i'] % len(cur['layers'])
        cur['layers'][i][1] += 7
    else:
        cur[what] = p[what]
    return cur


def fresh(mod):
    c = {'slab': mod['slab'], 'weak': mod['weak'], 'p': mod['p'], 'phi': 0}
    return md.build(c, system=mod['system'], touch=mod['touch'])


def describe(mod):
    return {k: copy.deepcopy(mod[k]) for k in ('system', 'touch', 'slab', 'weak', 'p')}


# --- evaluated in processes without history ---------------------------------

def want_probe(mod, k):
    return probe(fresh(mod), k)


def want_solve(mod, args, which):
    f = fresh(mod)
    sol = solve(f, args, which)
    return {'segs': sol['segs'], 'states': states(f, sol), 'properties': properties(f)}


def want_output(mod, args, name, sol, k):
    f = fresh(mod)
    f.calc_segments(**copy.deepcopy(args))
    # the same constants, evaluated by a model without history
    return output(f, name, sol, k)


def want_spring(mod, args, p):
    f = fresh(mod)
    f.calc_segments(**copy.deepcopy(args))
    f.set_stiffness_ratio(p['ratio'])
    return f.substitute_stiffness(p['L'], p['support'], p['dof'])


def want_tool(slab, kw):
    return weac.tools.touchdown_distance(md.layers_arg(slab), **kw)


# ----------------------------------------------------------------------------

def states(m, sol):
    out = []
    for which, C in (('nocrack', sol['C0']), ('crack', sol['C1'])):
        s = sol['segs'][which]
        out.append([md.seg_state(m, s, C, j, np.array([0, .5, 1]) * l, sol['phi']) for j, l in enumerate(s['li'])])
    return out


def check(c, rec):
    pristine.start()
    frozen = Frozen()
    models = []
    for d in c['models']:
        mod = {k: d[k] for k in ('system', 'touch', 'slab', 'weak', 'p')}
        if models and d['twin'] is not None:
            # differs from the first model in a single property
            mod.update({k: copy.deepcopy(models[0][k]) for k in ('slab', 'weak', 'p')})
            if 'like' in d['twin']:
                what = 'weak' if 't' in d['twin'] else 'slab'
                mod[what] = variation(mod, 'weak' if what == 'weak' else 'beam', d['twin'])
        if mod['touch'] and mod['system'] not in ('pst-', '-pst'):
            mod['touch'] = False
        mod['m'], mod['sols'] = fresh(mod), []
        models.append(mod)
    done = 0
    for n, (i, op, p) in enumerate(c['ops']):
        mod = models[i % len(models)]
        m, tag = mod['m'], f'operation {n} ({op}): '
        k = n % 3
        if op in ('weak', 'beam', 'load'):
            # evaluate before and after: anything stored must not survive
            probe(m, k)
            if 'like' in (p if isinstance(p, dict) else {}):
                p = variation(mod, op, p)
        if op == 'weak':
            mod['weak'], mod['sols'] = p, []
            m.set_foundation_properties(t=p['t'], E=p['E'], nu=p['nu'], update=True)
        elif op == 'beam':
            mod['slab'], mod['sols'] = p, []
            lay = frozen.add(tag + 'layers', md.layers_arg(p))
            m.set_beam_properties(lay, C0=p['C0'], C1=p['C1'], nu=p['nu'], update=True)
        elif op == 'load':
            mod['p'], mod['sols'] = p, []
            m.set_surface_load(p)
        elif op == 'solve':
            sol = solve(m, seg_args(mod['system'], p), p['which'], frozen, tag)
            for s in mod['sols']:
                s['latest'] = False
            mod['sols'].append(sol)
            want = pristine.call(want_solve, describe(mod), sol['args'], p['which'])
            for w in ('nocrack', 'crack', 'both'):
                same(rec, tag + f'segments {w}', sol['segs'][w], want['segs'][w])
            x = md.scales(md.section({'slab': mod['slab'], 'weak': mod['weak'], 'p': mod['p']}), p['phi'])
            for zs, ys in zip(states(m, sol), want['states']):
                for j, (z, y) in enumerate(zip(zs, ys)):
                    sc = np.maximum(x, np.abs(y).max(axis=1))[:, None]
                    close(rec, 'fresh model', z, y, sc, 1e-8, tag + f'solution of segment {j} and that of a fresh model')
            same(rec, tag + 'section properties', properties(m), want['properties'])
        elif op == 'output':
            if not mod['sols']:
                continue
            sol = mod['sols'][p['sol'] % len(mod['sols'])]
            got = frozen.add(tag + 'result', output(m, p['name'], sol, p['k']))
            same(rec, tag + p['name'], got, pristine.call(want_output, describe(mod), sol['args'], p['name'], sol, p['k']))
        elif op == 'spring':
            args = copy.deepcopy(mod['sols'][-1]['args']) if mod['sols'] else seg_args(mod['system'], p['seg'])
            # the system must be initialised by a set-up call
            if not mod['sols']:
                m.calc_segments(**copy.deepcopy(args))
            m.set_stiffness_ratio(p['ratio'])
            same(rec, tag + 'substitute stiffness', m.substitute_stiffness(p['L'], p['support'], p['dof']),
                 pristine.call(want_spring, describe(mod), args, p))
            for s in mod['sols']:
                s['latest'] = False
        elif op == 'tool':
            lay = frozen.add(tag + 'layers', md.layers_arg(mod['slab']))
            kw = dict(C0=mod['slab']['C0'], C1=mod['slab']['C1'], Ewl=max(mod['weak']['E'], 0.2), t=mod['weak']['t'],
                      phi=abs(p))
            got = weac.tools.touchdown_distance(lay, **kw)
            same(rec, tag + 'touchdown distance', got, pristine.call(want_tool, mod['slab'], kw))
        if op in ('weak', 'beam', 'load'):
            same(rec, tag + 'fields at given solution vectors', probe(m, k), pristine.call(want_probe, describe(mod), k))
        done += 1
        rec.label(op, p['name'] if op == 'output' else None)
        frozen.check()
    rec.label(f'{len(models)} models', f'{min(done // 4 * 4, 12)}+ operations')
    solves = [k for k, (_, op, _) in enumerate(c['ops']) if op == 'solve']
    rec.nontrivial = len(solves) > 0 and any(op in ('weak', 'beam', 'load', 'solve', 'spring', 'output')
                                             for _, op, _ in c['ops'][:solves[-1]])


def beam():
    return st.fixed_dictionaries({
        'layers': gen.layer_list(4), 'form': st.sampled_from(['list', 'array']),
        'C0': st.sampled_from([6.5, 4.0, 12.0]), 'C1': st.sampled_from([4.4, 3.5]),
        'nu': st.sampled_from([0.25, 0.1, 0.4])})


def beam_db():
    return st.fixed_dictionaries({'layers': gen.db_name(), 'form': st.just('list'), 'C0': st.just(6.5),
                                  'C1': st.just(4.4), 'nu': st.just(0.25)})


def slab():
    return st.integers(0, 4).flatmap(lambda k: beam_db() if k == 4 else beam())


def weak():
    return st.fixed_dictionaries({'t': gen.num(2, 60), 'E': gen.lognum(0.1, 5), 'nu': st.sampled_from([0.25, 0.1, 0.4])})


def change_slab():
    return st.fixed_dictionaries({'like': st.sampled_from(['densities', 'densities', 'order', 'thickness', 'nu', 'C0']),
                                  'f': gen.num(0.6, 1.6, 2), 'i': st.integers(0, 3), 'nu': st.sampled_from([0.2, 0.3]),
                                  'C0': st.sampled_from([5.0, 8.0])})


def change_weak():
    return st.fixed_dictionaries({'like': st.sampled_from(['t', 'E', 'nu']), 't': gen.num(2, 60),
                                  'E': gen.lognum(0.1, 5), 'nu': st.sampled_from([0.2, 0.3])})


def seg():
    return st.fixed_dictionaries({
        'L': st.one_of(st.just(5000), gen.num(800, 12000), gen.num(12000, 40000)), 'f': st.one_of(st.just(0.2), gen.num(0.01, 0.8, 2)), 'm': gen.num(0, 300), 'phi': gen.num(-50, 50),
        'ratio': gen.num(10, 3000), 'which': st.sampled_from(['crack', 'crack', 'nocrack']),
        'li': st.lists(gen.num(300, 6000), min_size=2, max_size=5),
        'ki': st.lists(st.booleans(), min_size=3, max_size=3), 'mi': st.lists(gen.num(0, 200), min_size=4, max_size=4)})


def history():
    out = st.fixed_dictionaries({'name': st.sampled_from(OUTPUTS), 'k': st.integers(0, 20), 'sol': st.integers(0, 5)})
    spring = st.fixed_dictionaries({'L': st.one_of(st.sampled_from([300, 1000]), gen.num(50, 8000)), 'support': st.sampled_from(['rested', 'supported']),
                                    'dof': st.sampled_from(['rot', 'trans']), 'ratio': st.one_of(st.just(1000), gen.num(2, 3000)), 'seg': seg()})
    i = st.integers(0, 2)

    def tup(name, s):
        return st.tuples(i, st.just(name), s).map(list)

    op = st.integers(0, 15).flatmap(lambda k: (
        tup('solve', seg()) if k < 4 else tup('output', out) if k < 8 else tup('weak', st.one_of(weak(), change_weak())) if k < 10 else
        tup('beam', st.one_of(change_slab(), slab())) if k < 12 else tup('load', gen.surface()) if k < 13 else
        tup('spring', spring) if k < 15 else tup('tool', gen.num(0, 40))))
    model = st.fixed_dictionaries({'system': st.sampled_from(['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers']),
                                   'touch': st.sampled_from([True, False]), 'slab': slab(), 'weak': weak(),
                                   'p': gen.surface(),
                                   'twin': st.one_of(st.none(), st.just({}), change_slab(), change_slab(), change_weak(),
                                                     st.just({'like': 'order'}))})
    return st.fixed_dictionaries({'models': st.sampled_from([2, 1, 1, 3]).flatmap(
        lambda n: st.lists(model, min_size=n, max_size=n)),
                                  'ops': st.integers(3, 14).flatmap(
                                      lambda n: st.lists(op, min_size=n, max_size=n))})


# --- two computations that differ in a single input -------------------------

KINDS = ['density', 'order', 'order', 'order', 'back', 'layer', 'nu', 'C0', 'C1', 't', 'E', 'nuwl', 'Ewl and t', 'p', 'phi', 'L', 'f', 'ratio', 'm', 'li',
         'mi', 'ki', 'system', 'touch', 'touch', 'k']


def change(c):
    """The second computation: the first one with a single change."""
    mod, p, kind, f = copy.deepcopy(c['model']), copy.deepcopy(c['seg']), c['kind'], 1 + c['sign'] * c['size']
    slab, weak = mod['slab'], mod['weak']
    i = c['i']
    if kind in ('density', 'order', 'layer', 'nu', 'C0', 'C1') and isinstance(slab['layers'], str):
        slab['layers'] = [[r, h] for r, h, _ in gen.db_rows(slab['layers'])]
    lay = slab['layers']
    if kind == 'density':
        lay[i % len(lay)][0] *= f
    elif kind == 'layer':
        lay[i % len(lay)][1] *= f
    elif kind == 'order':
        lay.reverse()
    elif kind in ('nu', 'C0', 'C1'):
        slab[kind] *= f
    elif kind in ('t', 'E'):
        weak[kind] *= f
    elif kind == 'nuwl':
        weak['nu'] *= 1 - c['size'] / 2
    elif kind == 'Ewl and t':
        weak['t'], weak['E'] = 2 * weak['t'], 2 * weak['E']
    elif kind == 'p':
        mod['p'] = mod['p'] * f + 2e-3 * c['size']
    elif kind == 'phi':
        p['phi'] = -p['phi'] if c['size'] == 0.5 else p['phi'] * f
    elif kind in ('L', 'f', 'ratio', 'm', 'li', 'mi', 'ki'):
        if isinstance(p[kind], list):
            j = i % len(p[kind])
            p[kind][j] = not p[kind][j] if kind == 'ki' else p[kind][j] * f + (10 if kind == 'mi' else 0)
        else:
            p[kind] = round(p[kind] * f, 6) if kind != 'f' else min(0.85, p['f'] * f)
    elif kind == 'system':
        mod['system'] = {'pst-': '-pst', '-pst': 'vpst-', 'vpst-': '-vpst', '-vpst': 'pst-', 'skier': 'skiers',
                         'skiers': 'skier'}[mod['system']]
        if mod['system'] not in ('pst-', '-pst'):
            mod['touch'] = False
    elif kind == 'touch' and mod['system'] in ('pst-', '-pst'):
        mod['touch'] = not mod['touch']
    return mod, p


def battery(m, mod, p, k):
    """Everything that can be asked of a model."""
    out = {'probe': probe(m, k % 3)}
    sol = solve(m, seg_args(mod['system'], p), p['which'])
    out['segments'] = {w: sol['segs'][w] for w in ('nocrack', 'crack', 'both')}
    out['states'] = states(m, sol)
    out['touchdown'] = [getattr(m, a, None) for a in ('mode', 'td')]
    for name in OUTPUTS:
        out[name] = output(m, name, sol, k)
    out['properties'] = properties(m)
    m.set_stiffness_ratio(p['ratio'])
    out['springs'] = [m.substitute_stiffness(p['f'] * p['L'], a, b) for a in ('rested', 'supported')
                      for b in ('rot', 'trans')]
    return out


def want_battery(mod, p, k):
    return battery(fresh(mod), mod, p, k)


def same_battery(rec, tag, mod, p, got, want):
    x = md.scales(md.section({'slab': mod['slab'], 'weak': mod['weak'], 'p': mod['p']}), p['phi'])
    for zs, ys in zip(got['states'], want['states']):
        for j, (z, y) in enumerate(zip(zs, ys)):
            sc = np.maximum(x, np.abs(y).max(axis=1))[:, None]
            close(rec, 'fresh model', z, y, sc, 1e-8, tag + f'solution of segment {j} and that of a fresh model')
    for name in want:
        if name != 'states':
            same(rec, tag + name, got[name], want[name])


def update(m, a, b):
    """Change the settings of a model that differ."""
    if a['slab'] != b['slab']:
        m.set_beam_properties(md.layers_arg(b['slab']), C0=b['slab']['C0'], C1=b['slab']['C1'], nu=b['slab']['nu'],
                              update=True)
    if a['weak'] != b['weak']:
        m.set_foundation_properties(t=b['weak']['t'], E=b['weak']['E'], nu=b['weak']['nu'], update=True)
    if a['p'] != b['p']:
        m.set_surface_load(b['p'])
    m.system, m.touchdown = b['system'], b['touch']


def tool_args(mod, p):
    return dict(C0=mod['slab']['C0'], C1=mod['slab']['C1'], Ewl=max(mod['weak']['E'], 0.2), t=mod['weak']['t'],
                phi=abs(p['phi']))


def check_pair(c, rec):
    pristine.start()
    a, pa = copy.deepcopy(c['model']), copy.deepcopy(c['seg'])
    if a['system'] not in ('pst-', '-pst'):
        a['touch'] = False
    m, cur, k = fresh(a), a, c['k']
    battery(m, a, pa, k)
    if c['tool']:
        weac.tools.touchdown_distance(md.layers_arg(a['slab']), **tool_args(a, pa))
    rec.nontrivial = False
    for d in c['changes']:
        kind = d['kind']
        b, pb = (a, pa) if kind == 'back' else change({**d, 'model': a, 'seg': pa})
        kb = k + (kind == 'k')
        if d['reuse']:
            update(m, cur, b)
            rec.label('same model')
        else:
            m = fresh(b)
            rec.label('another model')
        cur = b
        same_battery(rec, f'after a change of {kind}: ', b, pb, battery(m, b, pb, kb),
                     pristine.call(want_battery, describe(b), pb, kb))
        if c['tool']:
            same(rec, f'after a change of {kind}: touchdown distance',
                 weac.tools.touchdown_distance(md.layers_arg(b['slab']), **tool_args(b, pb)),
                 pristine.call(want_tool, b['slab'], tool_args(b, pb)))
            rec.label('tool')
        rec.label(kind, b['system'], f'stage {m.mode}' if b['touch'] else None)
        rec.nontrivial |= (a, pa, k) != (b, pb, kb)


def pair():
    model = st.fixed_dictionaries({'system': st.sampled_from(['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers', 'pst-', '-vpst']),
                                   'touch': st.sampled_from([True, True, False]), 'slab': slab(), 'weak': weak(),
                                   'p': gen.surface()})
    one = st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'size': st.sampled_from([0.5, 0.1, 0.01, 1e-3, 1e-4]),
        'sign': st.sampled_from([1, -1]), 'i': st.integers(0, 5), 'reuse': st.booleans()})
    return st.fixed_dictionaries({
        'changes': st.integers(1, 4).flatmap(lambda n: st.lists(one, min_size=n, max_size=n)),
        'k': st.integers(0, 20), 'tool': st.sampled_from([False] * 5 + [True]), 'model': model, 'seg': seg()})


# --- results and arguments belong to the caller -----------------------------

def scribble(obj):
    """Overwrite every array in a result; returns the number of entries."""
    if isinstance(obj, dict):
        return sum(scribble(v) for v in obj.values())
    if isinstance(obj, (list, tuple)):
        return sum(scribble(v) for v in obj)
    if isinstance(obj, np.ndarray) and obj.flags.writeable:
        if obj.dtype == bool:
            np.logical_not(obj, out=obj)
        else:
            obj *= 3
            obj += 1
        return obj.size
    return 0


def check_overwritten(c, rec):
    """Arrays passed to and returned by public calls can be overwritten."""
    pristine.start()
    mod, p, k = copy.deepcopy(c['model']), c['seg'], c['k']
    if mod['system'] not in ('pst-', '-pst'):
        mod['touch'] = False
    slab = mod['slab']
    m = weac.Layered(system=mod['system'], touchdown=mod['touch'])
    lay = md.layers_arg(slab)
    if not isinstance(lay, str):
        lay = np.array(lay, dtype=float)
    m.set_foundation_properties(t=mod['weak']['t'], E=mod['weak']['E'], nu=mod['weak']['nu'], update=False)
    m.set_surface_load(mod['p'])
    m.set_beam_properties(lay, C0=slab['C0'], C1=slab['C1'], nu=slab['nu'], update=True)
    n = scribble(lay)
    want = pristine.call(want_battery, describe(mod), p, k)
    for _ in range(2):
        args = {q: np.array(v) if isinstance(v, list) else v for q, v in seg_args(mod['system'], p).items()}
        got = battery(m, mod, p, k)
        sol = solve(m, args, p['which'])
        x, z, xb = m.rasterize_solution(C=sol['C'], phi=p['phi'], num=8, **sol['segs'][p['which']])
        more = [m.get_zmesh(dz=5), m.get_ply_coordinates(), m.zp(x=1.0, phi=p['phi']), m.zh(x=1.0, l=2.0), x, z, xb, args,
                sol['segs'], sol['C0'], sol['C1'], m.get_load_vector(p['phi']), m.calc_system_matrix()]
        same_battery(rec, 'after overwriting arguments and results: ', mod, p, got, want)
        # Arguments of the set-up overwritten before it is used
        fresh_args = copy.deepcopy(args)
        segs = m.calc_segments(**fresh_args)
        kept = copy.deepcopy(segs)
        n += scribble(fresh_args)
        for state in kept:
            for q in kept[state]:
                if not np.array_equal(np.asarray(segs[state][q]), np.asarray(kept[state][q])):
                    raise Violation(f'overwriting the arguments of calc_segments changes {q} of {state} from {kept[state][q]} to '
                                    f'{segs[state][q]}')
        n += scribble(got) + scribble(more)
        for name in ({slab['layers'].split()[-1]} if isinstance(slab['layers'], str) else set()) | {c['profile']}:
            n += scribble(weac.tools.load_dummy_profile(name))
    # another model
    same_battery(rec, 'another model after overwriting arguments and results: ', mod, p, battery(fresh(mod), mod, p, k), want)
    name = c['profile']
    rows = np.array(gen.db_rows(name))
    lay, E = weac.tools.load_dummy_profile(name)
    close(rec, 'profile', np.column_stack([lay, E]), rows, rows, 1e-12, f'profile {name} after overwriting a loaded one')
    rec.label(mod['system'], 'profile' if isinstance(slab['layers'], str) else 'layers')
    rec.nontrivial = n > 0


def overwritten():
    model = st.fixed_dictionaries({'system': st.sampled_from(['pst-', '-pst', 'vpst-', '-vpst', 'skier', 'skiers']),
                                   'touch': st.sampled_from([True, False]), 'slab': st.one_of(slab(), beam_db()), 'weak': weak(),
                                   'p': gen.surface()})
    return st.fixed_dictionaries({'model': model, 'seg': seg(), 'k': st.integers(0, 20), 'profile': st.sampled_from(sorted(gen.DB))})


def stage_results(m, d):
    segs = md.segments(m, d, None)
    s = segs['crack']
    C = m.assemble_and_solve(phi=d['phi'], **s)
    Z = [md.seg_state(m, s, C, i, np.array([0, 0.4, 1]) * float(l), d['phi']) for i, l in enumerate(s['li'])]
    return {'mode': m.mode, 'td': float(m.td), 'li': np.asarray(s['li'], dtype=float), 'gdif': m.gdif(C, d['phi'], **s),
            'state': np.hstack(Z), 'tc': float(m.tc)}


def check_stages(c, rec):
    """One model through several stages of touchdown, with touchdown switched on and off."""
    m, seen = None, []
    for step in c['steps']:
        d = md.resolve_touch({**c, 'st': {**c['st'], 'stage': step['stage'], 'f': step['f'], 'touch': True}})
        touch = step['touch'] and step['system'] in ('pst-', '-pst')
        d['st'] = {**d['st'], 'system': step['system'], 'touch': touch}
        if m is None:
            m = md.build(d)
        m.system, m.touchdown = step['system'], touch
        got, want = stage_results(m, d), stage_results(md.build(d), d)
        what = f'{step["system"]} with {"" if touch else "no "}touchdown, cut {d["st"]["a"]} after {seen}'
        if got['mode'] != want['mode']:
            raise Violation(f'stage {got["mode"]} of {what}, a fresh model gives {want["mode"]}')
        for k in ('td', 'li', 'gdif', 'tc'):
            w = np.abs(want[k]).max() + 1e-30
            close(rec, k, got[k], want[k], w, 1e-9, f'{k} of {what} and that of a fresh model')
        sc = md.scales(md.section(d), d['phi'], S=want['state'])[:, None]
        close(rec, 'state', got['state'], want['state'], sc, 1e-8, f'solution of {what} and that of a fresh model')
        seen.append(want['mode'] + (' with' if touch else ' without') + ' touchdown')
        rec.label('stage ' + want['mode'] if touch else 'without touchdown')
    rec.nontrivial = len(set(seen)) > 1


def stages():
    step = st.fixed_dictionaries({'stage': st.sampled_from('ABCBC'), 'f': gen.num(0, 1, 2), 'touch': st.sampled_from([True, True, False]),
                                  'system': st.sampled_from(['pst-', '-pst', 'pst-', '-pst', 'vpst-', '-vpst'])})
    return st.builds(lambda a, s: {**a, 'steps': s}, gen.config(gen.touch_struct()), st.lists(step, min_size=2, max_size=4))


SUBS = [Sub('stages', stages, check_stages, (64, 1600), 'one model through several stages of touchdown'),
        Sub('overwritten', overwritten, check_overwritten, (160, 4000), 'arguments and results overwritten by the caller'),
        Sub('pairs', pair, check_pair, (240, 8000),
            'computations that differ from a first one in a single input each; non-trivial when they differ'), Sub('histories', history, check, (320, 8000),
            'random histories; non-trivial when another operation precedes a solution')]
