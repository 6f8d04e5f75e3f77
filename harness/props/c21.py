"""Invalid requests."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

import weac

ID = 'C21'
TITLE = 'Invalid requests are rejected with an error instead of a wrong result'
TECHNIQUE = 'property-based testing with invalid variants of valid requests interleaved with valid ones'
NOTE = (
    'Random valid systems; random sequences of invalid variants of valid requests, each of which must raise, each '
    'followed by the valid request, whose result must be unchanged; boundary segments that may be too short for the '
    'infinite slab, and potentials of systems without potential, are reported to the user, and only these.'
)
BAD_LENGTH = ['km', 'MM', 'inch', '', 'gradian', 'center', 'kPa', 'd']
BAD_SPRING = ['normal', 'Rot', 'tangential', 'w', 'psi', '', 'rest', 'free', 'bedded', 'unsupported']
BAD_UNIT = ['Pa', 'GPa', 'kpa', 'mpa', 'N', '', 'psi', 'inch', 'KPA']


def baseline(m, c):
    """Results of valid requests."""
    s = md.segments(m, c, 'crack')
    C = m.assemble_and_solve(phi=c['phi'], **s)
    x, z, xb = m.rasterize_solution(C=C, phi=c['phi'], num=12, **s)
    out = {'z': z, 'x': x, 'gdif': m.gdif(C, c['phi'], **s), 'Sxx': m.Sxx(z, c['phi'], dz=20),
           'ps': m.principal_stress_slab(z, c['phi'], dz=20), 'pw': m.principal_stress_weaklayer(z, normalize=True),
           'section': np.array([m.A11, m.B11, m.D11, m.kA55, m.kn, m.kt, m.h, m.zs, m.t])}
    return s, C, z, xb, out


def bad_segments(s, p, skier):
    """Invalid variant of valid segment lists."""
    li, mi, ki = list(map(float, s['li'])), list(map(float, s['mi'])), [bool(k) for k in s['ki']]
    kind = p['kind']
    n = len(li)
    if kind == 'extra length':
        li.insert(p['i'] % (n + 1), 500.0)
    elif kind == 'missing length' and n > 1:
        li.pop(p['i'] % n)
    elif kind == 'extra mass':
        mi.insert(p['i'] % n, p['m'])
    elif kind == 'missing mass' and mi:
        mi.pop(p['i'] % len(mi))
    elif kind == 'extra support':
        ki.insert(p['i'] % (n + 1), True)
    elif kind == 'missing support' and n > 1:
        ki.pop(p['i'] % n)
        if not any(ki):
            return None
    elif kind == 'no support':
        ki = [False] * n
    elif kind == 'extra segment without mass':
        li.insert(1, 400.0)
        ki.insert(1, True)
    elif kind == 'unsupported left end' and skier and n > 1:
        ki[0], ki[-1] = False, True
    elif kind == 'unsupported right end' and skier and n > 1:
        ki[0], ki[-1] = True, False
    elif kind == 'unsupported ends' and skier and n > 2:
        ki[0] = ki[-1] = False
        ki[1] = True
    else:
        return None
    return {'li': np.array(li), 'mi': np.array(mi), 'ki': np.array(ki)}


KINDS = ['extra length', 'missing length', 'extra mass', 'missing mass', 'extra support', 'missing support',
         'no support', 'extra segment without mass', 'unsupported left end', 'unsupported right end',
         'unsupported ends']


def request(m, c, s, C, z, xb, op, p):
    """Issue an invalid request; returns its description or None if this
    system has no such request."""
    phi = c['phi']
    skier = m.system in ('skier', 'skiers')
    must = Exception
    if op == 'segments':
        b = bad_segments(s, p, skier)
        if b is None:
            return None
        what, f = f'segments with {p["kind"]} {b}', lambda: m.assemble_and_solve(phi=phi, **b)
    elif op == 'system':
        good = m.system

        def f():
            m.system = p['name']
            try:
                if p['i'] % 2:
                    if 'li' in c['st']:
                        return m.calc_segments(li=c['st']['li'], mi=c['st']['mi'], ki=c['st']['ki'],
                                               k0=c['st']['k0'], phi=phi)
                    return m.calc_segments(L=c['st']['L'], a=c['st']['a'], phi=phi)
                return m.assemble_and_solve(phi=phi, **s)
            finally:
                m.system = good
        what = f'system type {p["name"]!r}'
    elif op == 'new system':
        def f():
            mm = weac.Layered(system=p['name'], layers=md.layers_arg(c['slab']))
            return mm.calc_segments(L=5000, a=300, phi=phi)
        what = f'new model of system type {p["name"]!r}'
    elif op == 'profile':
        n = p['profile']
        fs = [lambda: m.set_beam_properties(n, update=bool(p['i'] % 2)), lambda: weac.Layered(layers=n),
              lambda: weac.tools.load_dummy_profile(n.split()[-1] if n.split() else n),
              lambda: weac.Inverse(layers=n)]
        if n == '':         # an empty profile selects the default slab of the constructor
            return None
        what, f = f'profile {n!r} ({p["i"] % 4})', fs[p['i'] % 4]
    elif op == 'component':
        v = p['comp']
        fs = [lambda: m.principal_stress_slab(z, phi, dz=20, val=v, normalize=bool(p['i'] % 3)),
              lambda: m.principal_stress_weaklayer(z, val=v, normalize=bool(p['i'] % 3))]
        what, f, must = f'principal stress component {v!r}', fs[p['i'] % 2], ValueError
    elif op == 'normalise':
        u = ['kPa', 'MPa'][p['i'] % 2]
        fs = [lambda: m.principal_stress_slab(z, phi, dz=20, val='min', normalize=True, unit=u),
              lambda: m.principal_stress_weaklayer(z, val='max', normalize=True, unit=u)]
        what, f, must = f'impossible normalisation ({p["i"] // 2 % 2}, {u})', fs[p['i'] // 2 % 2], ValueError
    elif op == 'unit':
        u = p['unit']
        x = np.arange(z.shape[1]) * 1.0
        fs = [lambda: m.sig(z, unit=u), lambda: m.tau(z, unit=u), lambda: m.Sxx(z, phi, dz=20, unit=u),
              lambda: m.Txz(z, phi, dz=20, unit=u), lambda: m.Szz(z, phi, dz=20, unit=u),
              lambda: m.principal_stress_slab(z, phi, dz=20, unit=u),
              lambda: m.principal_stress_slab(z, phi, dz=20, unit=u, normalize=True),
              lambda: m.principal_stress_weaklayer(z, unit=u),
              lambda: m.principal_stress_weaklayer(z, unit=u, normalize=True),
              lambda: m.get_weaklayer_shearstress(x, z, unit=u), lambda: m.get_weaklayer_normalstress(x, z, unit=u),
              lambda: weac.tools.tensile_strength_slab(200.0, unit=u)]
        k = p['i'] % len(fs)
        what, f = f'stress unit {u!r} (request {k})', fs[k]
    elif op == 'quantity':
        # Units and locations of displacements, rotations and energy release rates
        x = np.arange(z.shape[1]) * 1.0
        u = p['length']
        fs = [lambda: m.w(z, unit=u), lambda: m.u(z, z0=0, unit=u), lambda: m.psi(z, unit=u), lambda: m.Gi(z[:, :1], unit=u),
              lambda: m.Gii(z[:, :1], unit=u), lambda: m.get_slab_displacement(x, z, unit=u),
              lambda: m.get_slab_deflection(x, z, unit=u), lambda: m.get_slab_rotation(x, z, unit=u),
              lambda: m.get_slab_displacement(x, z, loc=u)]
        k = p['i'] % len(fs)
        what, f = f'unit or location {u!r} (request {k})', fs[k]
    elif op == 'spring':
        kw = [{'dof': p['dof']}, {'support': p['dof']}, {'support': 'supported', 'dof': p['dof']}, {'support': p['dof'], 'dof': 'trans'}]
        kw = kw[p['i'] % 4]
        # The stiffness ratio decides on what is left of an unfinished computation
        if p['i'] % 3:
            m.set_stiffness_ratio(50)
        what, f, must = f'substitute spring {kw}', lambda: m.substitute_stiffness(1500.0, **kw), Exception
    elif op == 'position':
        zz = z[:, :1]
        what, f, must = f'segment position {p["pos"]!r}', lambda: m.eqs(zz, zz, k=bool(p['i'] % 2), pos=p['pos']), ValueError
    elif op == 'field':
        import matplotlib.pyplot as plt

        def f():
            try:
                return weac.plot.deformed(m, xsl=np.linspace(0, 1000, z.shape[1]), xwl=np.linspace(0, 1000, z.shape[1]),
                                          z=z, phi=phi, dz=50, field=p['field'])
            finally:
                plt.close('all')
        what = f'stress field {p["field"]!r}'
    try:
        r = f()
    except must:
        return what
    except Exception as e:
        raise Violation(f'{what}: raises {type(e).__name__}, documented is {must.__name__}')
    raise Violation(f'{what} is not rejected, result {str(r)[:200]}')


def check(c, rec):
    m = md.build(c)
    s, C, z, xb, want = baseline(m, c)
    done = 0
    for op, p in c['ops']:
        what = request(m, c, s, C, z, xb, op, p)
        if what is None:
            continue
        done += 1
        rec.label(op, p['kind'] if op == 'segments' else None)
        got = baseline(m, c)[-1]
        for k in want:
            close(rec, 'afterwards', got[k], want[k], np.abs(want[k]).max() + 1e-30, 1e-9, f'{k} after {what}')
    md.labels(rec, c)
    rec.nontrivial = done > 0


def messages(f):
    """Result of f and everything it prints or warns of."""
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as seen, contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        warnings.simplefilter('always')
        r = f()
    return r, out.getvalue() + ' '.join(str(w.message) for w in seen if issubclass(w.category, UserWarning))


def check_short(c, rec):
    """Boundary segments that may be too short are pointed out to the user."""
    ends = c['ends']
    mid = c['mid']
    if c['system'] == 'skiers':
        ki = [True] + [bool(k) for k in mid] + [True]
        li = [ends[0]] + [400.0 + 100 * i for i in range(len(mid))] + [ends[1]]
        par = {'li': li, 'mi': [c['m']] * (len(li) - 1), 'ki': ki, 'k0': [True] * len(li)}
    else:
        par = {'L': ends[0] + ends[1] if c['system'] != 'skier' else 2 * ends[0] + 300, 'a': ends[1] if c['system'] != 'skier' else 300,
               'm': c['m']}
    m = weac.Layered(system=c['system'], layers=c['slab'])
    _, text = messages(lambda: m.calc_segments(phi=c['phi'], **par))
    if text:
        raise Violation(f'setting up segments reports {text!r}')
    seg = m.calc_segments(phi=c['phi'], **par)[c['state']]
    C, text = messages(lambda: m.assemble_and_solve(phi=c['phi'], **seg))
    li = np.asarray(seg['li'], dtype=float)
    short = 'skier' in c['system'] and bool(min(li[0], li[-1]) < 5000)
    if short and 'boundar' not in text.lower():
        raise Violation(f'segments {li} solved without a warning of short boundary segments: {text!r}')
    if not short and text:
        raise Violation(f'segments {li} in system {c["system"]} reported as {text!r}')
    if not np.all(np.isfinite(C)):
        raise Violation('solution is not finite')
    if c['system'] in ('skier', 'skiers'):
        for name, f in (('external', m.external_potential), ('internal', m.internal_potential)):
            try:
                r, text = messages(lambda: f(C, c['phi'], L=li.sum(), **seg))
            except Exception:
                continue
            if not text:
                raise Violation(f'{name} potential of system {c["system"]} without a message: {r}')
    rec.label('short' if short else 'long', c['system'])
    rec.nontrivial = short


def short_cases():
    end = st.one_of(st.sampled_from([4999.0, 5000.0, 5001.0]), gen.num(300, 4990), gen.num(5010, 20000), gen.num(5010, 20000))
    return st.fixed_dictionaries({
        'system': st.sampled_from(['skiers', 'skiers', 'skiers', 'skier', 'pst-', '-pst', 'vpst-', '-vpst']), 'ends': st.tuples(end, end).map(list),
        'mid': st.lists(st.integers(0, 1), max_size=3), 'm': gen.num(0, 100), 'phi': gen.num(-40, 40), 'state': st.sampled_from(['crack', 'nocrack']),
        'slab': st.sampled_from(['A', 'E', 'H', [[200, 150], [320, 100]]])})


def names():
    return st.sampled_from(['pst', 'PST-', 'vpst', 'skier-', 'skierss', '', 'rested', '-skier', 'pst--', ' pst-', 'x'])


def cases():
    par = st.fixed_dictionaries({
        'i': st.integers(0, 23), 'kind': st.sampled_from(KINDS), 'm': gen.num(0, 100), 'name': names(),
        'profile': st.sampled_from(['z', 'profile g', 'softer', 'profile', 'mediums', 'aa', 'hard1', 'none']),
        'comp': st.sampled_from(['mid', 'Max', 'mean', '', 'MIN', 'tresca', 'maximum', 'm']),
        'unit': st.sampled_from(BAD_UNIT), 'length': st.sampled_from(BAD_LENGTH), 'dof': st.sampled_from(BAD_SPRING), 'pos': st.sampled_from(['x', 'center', 'L', '', 'top', 'Right']),
        'field': st.sampled_from(['v', 'stress', 'sxx', 'XX', '', 'Principal'])})
    op = st.sampled_from(['segments'] * 8 + ['system'] * 2 + ['new system', 'profile', 'profile', 'component',
                                                             'normalise', 'unit', 'unit', 'quantity', 'spring', 'position'])
    ops = st.integers(1, 8).flatmap(lambda n: st.lists(st.tuples(op, par).map(list), min_size=n, max_size=n))
    return st.builds(lambda a, o: {**a, 'ops': o}, gen.config(gen.any_struct()), ops)


def plot_cases():
    par = st.fixed_dictionaries({'i': st.just(0), 'field': st.sampled_from(['v', 'stress', 'sxx', 'XX', '', 'Principal', 'tau'])})
    return st.builds(lambda a, p: {**a, 'ops': [['field', p]]}, gen.config(gen.any_struct()), par)


SUBS = [Sub('messages', short_cases, check_short, (400, 5000), 'short boundary segments'),
        Sub('requests', cases, check, (800, 14000), 'random sequences of invalid requests'),
        Sub('fields', plot_cases, check, (48, 400), 'contour plots of undefined fields')]
