"""Continuity of all results in all inputs, in particular at special values."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

import weac

ID = 'C32'
TITLE = 'Special values are no exceptions: results depend continuously on the inputs'
TECHNIQUE = 'property-based testing: metamorphic relation between a configuration with a special input value and its neighbours'
NOTE = (
    'Random configurations in which one input takes a special value (flat terrain, no surface load, no skier, uniform '
    'layers, no lateral contraction, round numbers, lengths equal to other lengths, no crack, equal stiffness), compared '
    'with neighbours on both sides of that value, at a relative distance of 1e-9: section properties, loads, displacements, '
    'section forces, energy release rates, stress fields, springs, transition and touchdown lengths. Cases in which the '
    'neighbour has another touchdown stage or mesh are compared in what is left. Paths through the range of one input are '
    'searched for jumps by bisection.'
)
EPS, TOL = 1e-9, 2e-5
FRACTIONS = np.array([0.0, 0.13, 0.5, 0.87, 1.0])
SPECIAL = {
    'phi': [0, 0, 0, 1, -1, 5, -5, 10, 15, -20, 25, 30, -30, 38, 45, -45, 60, -60, 80],
    'p': [0, 0, 1e-3, 1e-2],
    'rho': ['next', 'next', 'previous', 50, 100, 150, 200, 250, 300, 350, 400, 500, 550],
    'h': ['next', 'previous', 't', 1, 2, 5, 10, 20, 50, 100, 150, 200],
    'nu': [0, 0, 0.25, 0.3], 'wnu': [0, 0, 0.25, 0.3, 'nu'],
    't': ['h', 1, 2, 5, 10, 20, 30, 50, 100], 'E': [0.1, 0.25, 0.5, 1, 5, 10],
    'C0': [1, 5, 6, 6.5, 10], 'C1': [3, 4, 4.4, 4.6, 5], 'g': [9810, 1000, 10000], 'lski': [1000, 1500, 100],
    'm': [0, 0, 1, 10, 50, 80, 100, 200, 500], 'l': ['h', 't', 1, 10, 50, 100, 200, 500, 1000, 2000, 5000, 10000, 'next'],
    'a': [0, 'h', 'half', 1, 10, 50, 100, 200, 300, 500, 1000], 'L': [1000, 2000, 5000, 10000, 20000],
    'cf': [0.5, 0.25, 0.75, 1.0], 'ratio': [1, 2, 10, 100, 1000],
}
TYPICAL = {'phi': 1, 'p': 1e-5, 'rho': 100, 'h': 10, 'nu': 0.3, 'wnu': 0.3, 't': 1, 'E': 0.1, 'C0': 1, 'C1': 1, 'g': 1000, 'lski': 100,
           'm': 1e-3, 'l': 10, 'a': 10, 'L': 1000, 'cf': 0.1, 'ratio': 1}
SIGNED = {'phi'}


def inputs(c):
    """Names of the inputs of a case."""
    s = c['st']
    names = ['phi', 'phi', 'phi', 'p', 'nu', 'wnu', 't', 'E', 'g', 'lski', 'ratio']
    if not isinstance(c['slab']['layers'], str):
        names += ['rho', 'rho', 'h', 'h', 'C0', 'C1']
    if 'li' in s:
        names += ['l', 'l'] + (['m', 'm'] if s['mi'] else [])
    else:
        names += ['a', 'a', 'L'] + (['m', 'm'] if s['system'] == 'skier' else [])
        if s.get('touch'):
            names += ['cf', 'ratio']
    return names


def place(c, name, i):
    """Container and key of an input."""
    s = c['st']
    lay = c['slab']['layers']
    if name in ('phi', 'p', 'g', 'lski'):
        c.setdefault('g', 9810)
        c.setdefault('lski', 1000)
        return c, name
    if name in ('rho', 'h'):
        return lay[i % len(lay)], ['rho', 'h'].index(name)
    if name in ('nu', 'C0', 'C1'):
        for k, v in (('nu', 0.25), ('C0', 6.5), ('C1', 4.4)):
            c['slab'].setdefault(k, v)
        return c['slab'], name
    if name in ('wnu', 't', 'E'):
        return c['weak'], {'wnu': 'nu'}.get(name, name)
    if name == 'l':
        return s['li'], i % len(s['li'])
    if name == 'm' and 'mi' in s:
        return s['mi'], i % len(s['mi'])
    s.setdefault('cf', 0.5)
    s.setdefault('ratio', 1000)
    return s, name


def special(c, name, i, v):
    """Value meant by a symbolic special value; None keeps the drawn one."""
    s, lay = c['st'], c['slab']['layers']
    box, key = place(c, name, i)
    if v in ('next', 'previous'):
        rows = s['li'] if name == 'l' else [r[0 if name == 'rho' else 1] for r in lay]
        return rows[(i % len(rows) + (1 if v == 'next' else -1)) % len(rows)]
    if v == 'h':
        return float(sum(r[1] for r in md.rows(c['slab'])))
    if v == 't':
        return c['weak']['t']
    if v == 'nu':
        return c['slab'].get('nu', 0.25)
    if v == 'half':
        return s['L'] / 2
    return box[key] if v is None else v


def evaluate(c):
    """All results of a configuration as {name: (value, scale)}."""
    m = md.build(c)
    phi = c['phi']
    out = {}
    for k in ('A11', 'D11', 'kA55', 'K0', 'kn', 'kt', 'h', 't'):
        v = float(getattr(m, k))
        out[k] = (v, abs(v))
    out['B11'] = (m.B11, m.A11 * m.h)
    out['zs'] = (m.zs, m.h)
    Q = m.slab[:, 0] @ m.slab[:, 1] * 1e-12 * m.g + m.p
    out['weight'] = (np.array(m.get_weight_load(phi)), Q)
    out['surface load'] = (np.array(m.get_surface_load(phi)), Q)
    xs, zs, w = weac.tools.calc_vertical_bc_center_of_gravity(m.slab, phi)
    out['wedge mass'] = (w, Q / m.g * m.h)
    out['wedge moments'] = (np.array([xs * w, zs * w]), Q / m.g * m.h**2)
    segs = md.segments(m, c, None)
    sec = md.section(c)
    touch = c['st'].get('touch') and m.system in ('pst-', '-pst')
    if touch:
        L = c['st']['L']
        out['collapse height'] = (m.tc, m.t)
        out['transition lengths'] = (np.array([m.calc_a1(), m.calc_a2()]), L)
    out['mode'] = m.mode
    out['touchdown length'] = (float(m.td), float(np.sum(segs['crack']['li'])))
    C = {}
    for key in ('nocrack', 'crack'):
        s = segs[key]
        # Columns of a few millimetres consist of rounding errors
        if max([l for l, k in zip(s['li'], s['ki']) if k], default=0) < 20:
            continue
        # Stages beyond first contact belong to cracked columns
        if key == 'nocrack' and m.mode != 'A':
            continue
        C[key] = m.assemble_and_solve(phi=phi, **s)
        Z = [m.z(FRACTIONS * float(l), C[key][:, [i]], float(l), phi, bed=bool(k)) for i, (l, k) in enumerate(zip(s['li'], s['ki']))]
        S = np.hstack([md.as_state(m, z) for z in Z])
        sc = md.scales(sec, phi, md.forces(c, s, sec), S)
        if not touch:
            # Magnitude of the response to tangential loads, which vanish on flat terrain
            other = phi + 30 if phi < 20 else phi - 30
            D = m.assemble_and_solve(phi=other, **s)
            T = np.hstack([md.seg_state(m, s, D, i, FRACTIONS * float(l), other) for i, l in enumerate(s['li'])])
            sc = np.maximum(sc, np.abs(T).max(axis=1))
        out['solution ' + key] = (S, sc[:, None] * np.ones_like(S))
        bed = [z for z, k, l in zip(Z, s['ki'], s['li']) if k]
        G = m.gdif(C[key], phi, **s)
        gs = (m.kn * sc[1]**2 + m.kt * (sc[0] + m.h * sc[2])**2) / 2
        out['gdif ' + key] = (G, gs)
        if bed:
            z = np.hstack(bed)
            out['weak-layer stress ' + key] = (np.array([m.sig(z), m.tau(z)]), m.kn * sc[1] + m.kt * (sc[0] + m.h * sc[2]))
            z = np.hstack(bed)[:, [1, 2, -2]]
            f = [m.Sxx(z, phi, dz=25), m.Txz(z, phi, dz=25), m.Szz(z, phi, dz=25)]
            big = max(np.abs(v).max() for v in f) + 1e3 * (Q + sc[3] / m.h + 6 * sc[4] / m.h**2)
            for n_, v in zip(('Sxx', 'Txz', 'Szz'), f):
                out[f'{n_} {key}'] = (v, big)
            for v in ('max', 'min'):
                out[f'{v} principal stress {key}'] = (m.principal_stress_slab(z, phi, dz=25, val=v), big)
            wl = m.principal_stress_weaklayer(z)
            out['weak-layer principal stress ' + key] = (wl, 1e3 * (m.kn * sc[1] + m.kt * (sc[0] + m.h * sc[2])))
    b = segs['both']
    new = np.asarray(b['k0']) & ~np.asarray(b['ki'])
    if len(C) == 2 and np.asarray(b['li'], dtype=float)[new].sum() > 1e-2:
        out['ginc'] = (m.ginc(C['nocrack'], C['crack'], phi, **b), gs)
    m.set_stiffness_ratio(c['st'].get('ratio', 1000))
    for sup in ('supported', 'rested'):
        for dof in ('rot', 'trans'):
            k = m.substitute_stiffness(max(float(segs['crack']['li'].max()), 20.0), sup, dof)
            out[f'{sup} {dof} spring'] = (k, k)
    return out


def compare(rec, a, b, what):
    n = 0
    same = a['mode'] == b['mode']
    contact = a['mode'] != 'A'
    for k in a:
        if k == 'mode' or k not in b:
            continue
        if not same and k.split()[0] not in ('A11', 'D11', 'transition', 'collapse'):
            continue
        (va, sa), (vb, sb) = a[k], b[k]
        va, vb = np.asarray(va, dtype=float), np.asarray(vb, dtype=float)
        if va.shape != vb.shape:
            continue        # another mesh
        close(rec, k.split()[-1] if contact else k.split()[0], vb, va, np.maximum(sa, sb) + 1e-30, TOL, f'{k} next to {what}')
        n += 1
    return n


def check(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    c = copy.deepcopy({k: v for k, v in c.items()})
    if not isinstance(c['slab']['layers'], str):
        c['slab']['layers'] = [list(r) for r in c['slab']['layers']]
    pick = inputs(c)
    name = pick[c['pick'] % len(pick)]
    values = SPECIAL[name] + [None]
    v = special(c, name, c['i'], values[c['value'] % len(values)])
    box, key = place(c, name, c['i'])
    box[key] = v
    s = c['st']
    if 'a' in s and not 0 <= s['a'] < 0.97 * s['L']:
        return
    if name == 'h' and not 0.5 <= v <= 600:
        return
    a = evaluate(c)
    n = 0
    for sign in (1, -1):
        x = v + sign * EPS * max(abs(v), TYPICAL[name])
        if x < 0 and name not in SIGNED:
            continue
        d = copy.deepcopy(c)
        box, key = place(d, name, c['i'])
        box[key] = x
        b = evaluate(d)
        if a['mode'] == b['mode'] == 'C':
            # Right after full contact the touchdown length falls steeply with the cut
            a2 = a['transition lengths'][0][1]
            if s['a'] < 1.02 * a2:
                rec.label('close to full contact')
                a = {k: w for k, w in a.items() if k.split()[0] in ('A11', 'D11', 'mode', 'transition', 'collapse')}
        if a['mode'] != b['mode']:
            rec.label('at a transition')
        n += compare(rec, a, b, f'{name} = {v}')
    md.labels(rec, c)
    rec.label('input ' + name, 'stage ' + str(a['mode']) if s.get('touch') else None, 'special value' if c['value'] % len(values) < len(values) - 1 else 'drawn value')
    rec.nontrivial = n > 10


RANGE = {'phi': (-80, 80), 'p': (0, 0.02), 'rho': (40, 600), 'h': (0.1, 300), 'nu': (0, 0.45), 'wnu': (0, 0.45), 't': (0.5, 200),
         'E': (0.02, 20), 'C0': (1, 20), 'C1': (2.5, 5.5), 'g': (1000, 20000), 'lski': (100, 3000), 'm': (0, 500), 'l': (1, 6000),
         'ratio': (0.2, 5000)}
LOG = {'h', 't', 'E', 'l', 'ratio', 'L'}
SMALL = {'phi': 0.01, 'p': 1e-6, 'm': 0.01, 'a': 0.01, 'l': 0.01}     # start of logarithmic paths
GRID, HALVE = 14, 28


def check_path(c, rec):
    """Search for jumps along a path through the range of one input."""
    c = copy.deepcopy(c)
    if not isinstance(c['slab']['layers'], str):
        c['slab']['layers'] = [list(r) for r in c['slab']['layers']]
    pick = inputs(c)
    name, s = pick[c['pick'] % len(pick)], c['st']
    if name == 'a':
        lo, hi = 0.0, 0.95 * s['L']
    elif name == 'L':
        lo, hi = max(1.03 * s['a'], 500), max(2 * s['a'], 30000)
    else:
        lo, hi = RANGE[name]
    f, b = c['from'], c['to']
    if c['log'] and name in SMALL:
        lo = SMALL[name]
        sign = -1 if name == 'phi' and c['value'] % 2 else 1
        wrap = lambda x: sign * lo * (hi / lo) ** x
    else:
        wrap = (lambda x: lo * (hi / lo) ** x) if name in LOG else (lambda x: lo + (hi - lo) * x)
    memo = {}

    def at(x):
        if x not in memo:
            d = copy.deepcopy(c)
            box, key = place(d, name, c['i'])
            box[key] = wrap(x)
            memo[x] = evaluate(d)
        return memo[x]

    def jump(x, y, k):
        (va, sa), (vb, sb) = at(x)[k], at(y)[k]
        va, vb = np.asarray(va, dtype=float), np.asarray(vb, dtype=float)
        if va.shape != vb.shape:
            return 0.0
        return float(np.max(np.abs(va - vb)) / (max(np.max(sa), np.max(sb)) + 1e-30)) if va.size else 0.0

    xs = [f * 0.3 + (1 - 0.3 * f - 0.3 * b) * j / GRID for j in range(GRID + 1)]
    keys = [k for k in at(xs[0]) if k != 'mode' and all(k in at(x) for x in xs)]
    best = []
    for k in keys:
        d = np.array([jump(x, y, k) for x, y in zip(xs, xs[1:])])
        near = np.concatenate([[d[1]], np.minimum(d[:-2], d[2:]), [d[-2]]])
        contrast = d / (near + 1e-4)
        j = int(np.argmax(contrast))
        best.append((float(contrast[j]), k, j))
    best.sort(reverse=True)
    seen = []
    for value, k, j in best:
        if (j, k.split()[0]) in seen or len({q for q, _ in seen} | {j}) > 2 or len(seen) > 3:
            continue
        seen.append((j, k.split()[0]))
        x, y = xs[j], xs[j + 1]
        for _ in range(HALVE):
            mid = (x + y) / 2
            x, y = (x, mid) if jump(x, mid, k) >= jump(mid, y, k) else (mid, y)
        r = jump(x, y, k)
        rec.metric('jump', r)
        if r > TOL:
            raise Violation(f'{k} jumps by {r:.3g} of its scale between {name} = {wrap(x)!r} and {wrap(y)!r}: '
                            f'{np.asarray(at(x)[k][0]).ravel()[:4]} {np.asarray(at(y)[k][0]).ravel()[:4]}')
        if len(memo) > 60:
            memo = {q: memo[q] for q in xs}
    md.labels(rec, c)
    rec.label('path of ' + name)
    rec.nontrivial = len(keys) > 10


def paths():
    return st.builds(lambda a, u, v, w: {**a, 'from': u, 'to': v, 'log': w}, cases(gen.any_struct()), gen.num(0, 1, 2), gen.num(0, 1, 2),
                     st.booleans())


def cases(struct):
    return st.builds(lambda a, **kw: {**a, **kw}, gen.config(struct), pick=st.integers(0, 47), value=st.integers(0, 59), i=st.integers(0, 11))


SUBS = [Sub('special', lambda: cases(gen.any_struct()), check, (640, 12000), 'special values in systems without touchdown'),
        Sub('paths', paths, check_path, (80, 3000), 'search for jumps between arbitrary values of an input'),
        Sub('touchdown', lambda: cases(gen.touch_struct()), check, (64, 1200), 'special values in columns with touchdown')]
