"""Plot utilities."""
import colorsys
import contextlib
import os
import shutil
import timeit
from decimal import Decimal
from unittest import mock

import matplotlib
matplotlib.use('Agg')
import matplotlib.colors as mc
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import weac.plot as P
import weac.tools
from harness import gen
from harness.core import Sub, Violation, close

ID = 'C28'
TITLE = 'Plot utilities compute what they document'
TECHNIQUE = 'property-based testing: direct definitions and invariants'
NOTE = 'Random grids, colours, limits, decimals and ranges compared with direct definitions.'


def check_outline(c, rec):
    n, k = c['shape']
    g = np.random.default_rng(c['seed']).permutation(n * k).reshape(n, k).astype(float)
    keep = g.copy()
    if c['transposed']:
        got, n, k = P.outline(g.T), k, n
        g = g.T
    else:
        got = P.outline(g)
    idx = ([(0, j) for j in range(k)] + [(i, k - 1) for i in range(1, n)]
           + [(n - 1, j) for j in range(k - 2, -1, -1)] + [(i, 0) for i in range(n - 2, -1, -1)])
    want = [g[i] for i in idx]
    if list(got) != want:
        raise Violation(f'outline {list(got)}, expected {want}')
    if not np.array_equal(keep, g.T if c['transposed'] else g):
        raise Violation('grid modified')
    rec.nontrivial = n > 2 and k > 2


def check_color(c, rec):
    col, amount = c['color'], c['amount']
    col = tuple(col) if isinstance(col, list) else col
    kw = {} if amount is None else {'amount': amount}
    got = P.adjust_lightness(col, **kw)
    h, l, s = colorsys.rgb_to_hls(*mc.to_rgb(col))
    new = min(1.0, max(0.0, (0.5 if amount is None else amount) * l))
    want = colorsys.hls_to_rgb(h, new, s)
    if len(got) != 3 or not all(-1e-12 <= v <= 1 + 1e-12 for v in got):
        raise Violation(f'colour {got}')
    close(rec, 'colour', got, want, 1, 1e-12, f'{col} with lightness times {amount}')
    h2, l2, s2 = colorsys.rgb_to_hls(*got)
    close(rec, 'lightness', l2, new, 1, 1e-9, 'lightness')
    if 0.01 < new < 0.99 and s > 0.01 and abs(h2 - h) % 1 > 1e-6 and abs(abs(h2 - h) - 1) > 1e-6:
        raise Violation(f'hue {h} changed to {h2}')
    rec.label('name' if isinstance(col, str) and col[0] != '#' else 'hex' if isinstance(col, str) else 'tuple',
              'clipped' if new in (0.0, 1.0) else None)
    rec.nontrivial = True


def check_dist(c, rec):
    lim, n, t = c['limit'], c['samples'], c['tight']
    kw = {}
    if n is not None:
        kw['samples'] = n
    if t is not None:
        kw['tightness'] = t
    v = P.tight_central_distribution(lim, **kw)
    n = 100 if n is None else n
    t = 1.5 if t is None else t
    m = n // 2
    want = np.array([lim * (k / (m - 1)) ** t for k in range(m)])
    want = np.concatenate([-want[:0:-1], want])
    close(rec, 'values', v, want, lim, 1e-12, 'distribution')
    if np.any(np.diff(v) <= 0):
        raise Violation('values do not increase')
    close(rec, 'symmetry', v, -v[::-1], lim, 1e-12, 'symmetry')
    d = np.diff(v[v >= 0])
    if t > 1 and np.any(np.diff(d) < -1e-12 * lim):
        raise Violation('values are not denser around zero')
    rec.nontrivial = m > 2


def check_digits(c, rec):
    x = c['mant'] * 10.0 ** c['exp']
    x = float('%.6g' % x)
    got = P.significant_digits(x)
    want = -Decimal(repr(x)).adjusted()
    if got != want or int(got) != got:
        raise Violation(f'significant_digits({x}) = {got}, expected {want}')
    r = round(x, int(got))
    if not abs(r - x) <= 0.5000001 * 10.0 ** -got:
        raise Violation(f'{x} rounds to {r}')
    rec.label('below one' if x < 1 else 'at least one')
    rec.nontrivial = True


def check_norm(c, rec):
    a, mid, b = c['mid'] - c['down'], c['mid'], c['mid'] + c['up']
    kw = {} if c['mid'] == 0 and c['default'] else {'midpoint': mid}
    f = P.MidpointNormalize(a, b, **kw)
    close(rec, 'midpoint', f(mid), 0.5, 1, 1e-12, 'midpoint')
    x = np.linspace(a, b, 41)
    y = np.asarray(f(x))
    if np.any(np.diff(y) < -1e-12) or y.min() < -1e-12 or y.max() > 1 + 1e-12:
        raise Violation(f'normalised values {y}')
    # same slope on either side: equal distances from the midpoint look alike
    w = max(c['up'], c['down'])
    close(rec, 'values', y, 0.5 + (x - mid) / (2 * w), 1, 1e-9, 'normalised values')
    out = np.asarray(f(np.array([a - 1, b + 1])))
    close(rec, 'outside', out, [y[0], y[-1]], 1, 1e-12, 'values outside the range')
    close(rec, 'scalar', float(f(x[7])), y[7], 1, 1e-12, 'scalar value')
    rec.label('asymmetric' if c['up'] != c['down'] else 'symmetric')
    rec.nontrivial = True


def colors():
    return st.fixed_dictionaries({
        'color': st.one_of(st.sampled_from(sorted(mc.cnames)), st.sampled_from(['C0', 'C3', 'tab:blue', '0.3', 'k', 'r']),
                           st.integers(0, 2**24 - 1).map(lambda v: '#%06x' % v),
                           st.lists(gen.num(0, 1, 3), min_size=3, max_size=3),
                           st.lists(gen.num(0, 1, 3), min_size=4, max_size=4)),
        'amount': st.one_of(st.none(), gen.num(0, 3, 2))})


def shells(kind):
    """Stand-ins for IPython.get_ipython and whether they belong to a notebook."""
    if kind == 'error':
        def get():
            raise NameError('get_ipython')
        return get, False
    if kind == 'none':
        return (lambda: None), False
    if kind == 'absent':
        return None, False
    return (lambda: type(kind, (), {})()), kind == 'ZMQInteractiveShell'


def check_session(c, rec):
    """Figures are shown in notebooks and saved elsewhere; times are in milliseconds."""
    get, notebook = shells(c['shell'])
    shown = []
    name = c['name']
    path = os.path.join('plots', name + '.png')
    shutil.rmtree(os.path.join(os.getcwd(), 'plots'), ignore_errors=True)
    if c['folder']:
        os.mkdir('plots')
    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.object(weac.tools, 'get_ipython', get, create=True))
        stack.enter_context(mock.patch.object(plt, 'show', lambda *a, **k: shown.append(plt.get_fignums())))
        stack.callback(plt.close, 'all')
        if bool(weac.tools.isnotebook()) != notebook:
            raise Violation(f'isnotebook() with {c["shell"]}: {weac.tools.isnotebook()}')
        plt.figure(figsize=(1, 1), dpi=20)
        plt.plot([0, 1], [0, 1])
        P.save_plot(name)
    if notebook and (len(shown) != 1 or not shown[0]):
        raise Violation('figure not shown in a notebook')
    if not notebook:
        if shown:
            raise Violation(f'figure shown with {c["shell"]}')
        with open(path, 'rb') as fh:
            if fh.read(8) != b'\x89PNG\r\n\x1a\n':
                raise Violation('no image saved')
    before = [timeit.default_timer()]
    start = weac.tools.time()
    before.append(timeit.default_timer())
    while timeit.default_timer() < before[1] + c['ms'] / 1000:
        pass
    after = [timeit.default_timer()]
    took = weac.tools.time() - start
    after.append(timeit.default_timer())
    if not (after[0] - before[1]) * 999 - 0.01 <= took <= (after[1] - before[0]) * 1001 + 0.01:
        raise Violation(f'{took} ms instead of {(after[0] - before[1]) * 1e3:.6g} to {(after[1] - before[0]) * 1e3:.6g} ms')
    rec.label(c['shell'])
    rec.nontrivial = notebook


def sessions():
    return st.fixed_dictionaries({
        'shell': st.sampled_from(['ZMQInteractiveShell', 'TerminalInteractiveShell', 'none', 'absent', 'error', 'Shell', 'PyDevTerminalInteractiveShell',
                                  'ZMQInteractiveShell']),
        'folder': st.booleans(), 'name': st.text('abcxyz_-0123', min_size=1, max_size=8), 'ms': gen.num(0, 8, 1)})


SUBS = [
    Sub('session', sessions, check_session, (96, 800), 'notebooks'),
    Sub('outline', lambda: st.fixed_dictionaries({'shape': st.tuples(gen.num(2, 12), gen.num(2, 12)).map(list),
                                                  'seed': gen.num(0, 10**6), 'transposed': st.booleans()}),
        check_outline, (1600, 20000), 'grids with an interior'),
    Sub('colour', colors, check_color, (1600, 20000), 'named, hexadecimal, RGB and RGBA colours'),
    Sub('distribution', lambda: st.fixed_dictionaries({
        'limit': gen.lognum(1e-6, 1e6), 'samples': st.one_of(st.none(), gen.num(4, 400)),
        'tight': st.one_of(st.none(), gen.num(1, 4, 1))}), check_dist, (1600, 20000), 'more than two values per side'),
    Sub('digits', lambda: st.fixed_dictionaries({'mant': gen.num(1, 9.99999, 5), 'exp': gen.num(-15, 15)}), check_digits,
        (1600, 20000), 'decimals over thirty decades'),
    Sub('norm', lambda: st.fixed_dictionaries({
        'mid': st.one_of(st.just(0), gen.num(-100, 100, 1)), 'down': gen.lognum(0.01, 1000), 'up': gen.lognum(0.01, 1000),
        'default': st.booleans()}), check_norm, (1600, 20000), 'ranges around a midpoint'),
]
