"""Plots."""
import contextlib
import os

import matplotlib
matplotlib.use('Agg')
import matplotlib.axes
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.path import Path

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

import weac.plot

ID = 'C22'
TITLE = 'Plots show the computed data and leave the inputs untouched'
TECHNIQUE = 'property-based testing: drawn artists captured at saving and compared with independent data'
NOTE = (
    'Random solutions, options and profiles; every artist of the figure at the time of saving is inspected (lines, '
    'shaded spans, separators, texts, contour data, polygons, limits) and compared with data derived from the '
    'solution vectors; file, inputs, open figures and styles are checked. The rendering of matplotlib is trusted.'
)


class Shot:
    """What a figure held when it was saved."""

    def __init__(self, fig, name):
        self.name = os.path.relpath(os.path.realpath(name), os.path.realpath(os.getcwd()))
        self.ax = fig.axes
        self.lines = []
        self.vlines = []
        self.spans = []
        self.texts = []
        self.polys = []
        self.labels = []
        for ax in fig.axes:
            self.labels.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))
            for l in ax.lines:
                x, y = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in l.get_data(orig=False))
                if l.get_transform() == ax.get_xaxis_transform():
                    self.vlines.append(x[0])
                elif l.get_transform() == ax.get_yaxis_transform():
                    pass
                else:
                    self.lines.append((x, y, l.get_color(), ax))
            for p in ax.patches:
                v = p.get_path().transformed(p.get_patch_transform()).vertices
                self.spans.append((v[:, 0].min(), v[:, 0].max()))
            for t in ax.texts:
                self.texts.append((t.get_text(), t.get_color(), *t.get_position()))
            for k in ax.collections:
                self.polys.append(k)
        if fig.axes:
            self.xlim, self.ylim = fig.axes[0].get_xlim(), fig.axes[0].get_ylim()


@contextlib.contextmanager
def capture(small=True):
    """Record saved figures and contour data; save with low resolution."""
    shots, fields = [], []
    save, cont = matplotlib.figure.Figure.savefig, matplotlib.axes.Axes.contourf

    def savefig(self, fname, *a, **k):
        shots.append(Shot(self, fname))
        if small:
            k['dpi'] = 20
        return save(self, fname, *a, **k)

    def contourf(self, *a, **k):
        r = cont(self, *a, **k)
        fields.append(([np.array(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)) for v in a[:3]],
                       np.array(r.levels)))
        return r
    matplotlib.figure.Figure.savefig, matplotlib.axes.Axes.contourf = savefig, contourf
    try:
        yield shots, fields
    finally:
        matplotlib.figure.Figure.savefig, matplotlib.axes.Axes.contourf = save, cont


def public(m):
    return {} if m is None else {k: v for k, v in vars(m).items() if not k.startswith('_')
                                 and isinstance(v, (str, bool, int, float, np.ndarray, np.generic))}


def draw(f, name, frozen, m=None):
    """Run a plot call; return what it drew. frozen: arrays that must not change, m: the model shown."""
    copies = [np.array(v, copy=True) for v in frozen]
    attrs = {k: np.array(v, copy=True) for k, v in public(m).items()}
    before = plt.get_fignums()
    path = os.path.join(os.getcwd(), 'plots', name + '.png')
    if os.path.exists(path):
        os.unlink(path)
    try:
        with capture() as (shots, fields):
            f()
        left = [n for n in plt.get_fignums() if n not in before]
    finally:
        plt.close('all')
    for v, w in zip(frozen, copies):
        if not np.array_equal(v, w, equal_nan=w.dtype.kind == 'f'):
            raise Violation(f'{name}: an input of the plot was modified')
    now = public(m)
    for k, v in attrs.items():
        if k not in now or not np.array_equal(v, now[k], equal_nan=v.dtype.kind == 'f'):
            raise Violation(f'{name}: attribute {k} of the model changed from {v} to {now.get(k)}')
    if left:
        raise Violation(f'{name}: figure left open')
    if len(shots) != 1:
        raise Violation(f'{name}: {len(shots)} images saved')
    if shots[0].name != os.path.join('plots', name + '.png') or not os.path.getsize(path):
        raise Violation(f'{name}: image saved as {shots[0].name}')
    with open(path, 'rb') as fh:
        if fh.read(8) != b'\x89PNG\r\n\x1a\n':
            raise Violation(f'{name}: no PNG image')
    for k in ('lines.linewidth', 'font.size', 'font.family', 'mathtext.fontset', 'axes.facecolor', 'text.color'):
        if matplotlib.rcParams[k] != matplotlib.rcParamsDefault[k]:
            raise Violation(f'{name}: style {k} not reset')
    return shots[0], fields


def same_series(a, b, scale):
    return (a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b))
            and np.all(np.isnan(a) | (np.abs(a - b) <= 1e-9 * scale)))


def union(spans):
    out = []
    for a, b in sorted(s for s in spans if s[1] > s[0]):
        if out and a <= out[-1][1] + 1e-9:
            out[-1][1] = max(b, out[-1][1])
        else:
            out.append([a, b])
    return np.array(out)


def check_lines(shot, name, want):
    """want: (x, y, label). Every series is drawn and labelled, nothing else is."""
    used = set()
    for x, y, label in want:
        fin = np.isfinite(x)
        sx = np.max(np.abs(x[fin]), initial=1e-9)
        sy = np.max(np.abs(y[fin]), initial=0) + 1e-30
        hit = [i for i, (u, v, *_) in enumerate(shot.lines)
               if same_series(u, x, sx) and u.shape == v.shape == y.shape
               and np.all(np.abs(v - y)[fin] <= 1e-9 * sy)]
        if not hit:
            raise Violation(f'{name}: no line shows {label}')
        used.update(hit)
        if not fin.any():
            continue
        lab = [t for t in shot.texts if t[0] == label and any(t[1] == shot.lines[i][2] for i in hit)]
        if not lab:
            raise Violation(f'{name}: no label {label} in the colour of its line '
                            f'(texts {[t[0] for t in shot.texts]})')
        for _, _, tx, ty in lab:
            if not (x[fin].min() - 1e-9 * sx <= tx <= x[fin].max() + 1e-9 * sx
                    and y[fin].min() - 1e-9 * sy <= ty <= y[fin].max() + 1e-9 * sy):
                raise Violation(f'{name}: label {label} at ({tx}, {ty}) outside its data')
    if len(used) != len(shot.lines):
        raise Violation(f'{name}: {len(shot.lines) - len(used)} unexpected lines')
    if len(shot.texts) > len(want):
        raise Violation(f'{name}: unexpected texts {[t[0] for t in shot.texts]}')


def check_marks(shot, name, rec, li, mi, ki):
    off = np.concatenate([[0], np.cumsum(li)]) / 10
    want = union([(off[i], off[i + 1]) for i, k in enumerate(ki) if not k])
    got = union(shot.spans)
    close(rec, 'crack shading', got, want, off[-1], 1e-9, f'{name}: shaded extent')
    skiers = sorted({0.0} | {float(off[j + 1]) for j, v in enumerate(mi) if v > 0})
    marks = np.array(sorted(set(shot.vlines)))
    d = np.abs(marks[:, None] - np.array(skiers)[None, :]) if len(marks) else np.ones((1, 1))
    if len(marks) == 0 or d.min(axis=1).max() > 1e-9 * off[-1] or d.min(axis=0).max() > 1e-9 * off[-1]:
        raise Violation(f'{name}: vertical lines at {marks}, expected {skiers}')


def solution(c):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    m, s, C = md.solve(c)
    x, z, xb = m.rasterize_solution(C, c['phi'], num=c['num'], **s)
    return c, m, s, C, x, z, xb


def check_wrappers(c, rec):
    c, m, s, C, x, z, xb = solution(c)
    sec = md.section(c)
    S = md.as_state(m, z)
    i = c['i']
    seg = dict(s) if c['segs'] else {}
    froz = [x, z, xb, *s.values()]
    tag = '' if i is None else str(i)
    kw = {} if i is None else {'i': i}

    def go(f, name, want, axis, pos):
        shot, _ = draw(f, name, froz, m)
        check_lines(shot, name, want)
        check_marks(shot, name, rec, *((s['li'], s['mi'], s['ki']) if seg else ([x[-1]], [], [])))
        if axis not in shot.labels[0][1] or '(cm)' not in shot.labels[0][0]:
            raise Violation(f'{name}: axis labels {shot.labels[0]}')
        rec.nontrivial = True
    X = x / 10
    kind = c['kind']
    if kind == 'displacements':
        go(lambda: weac.plot.displacements(m, x, z, **kw, **seg), 'disp' + tag,
           [(X, S[0], r'$u_0\ (\mathrm{mm})$'), (X, -S[1], r'$-w\ (\mathrm{mm})$'),
            (X, np.rad2deg(S[2]), r'$\psi\ (^\circ)$ ')], 'Displacements', x)
    elif kind == 'section_forces':
        go(lambda: weac.plot.section_forces(m, x, z, **kw, **seg), 'forc' + tag,
           [(X, S[3], '$N$'), (X, S[4], '$M$'), (X, S[5], '$V$')], 'Section forces', x)
    elif kind == 'stresses':
        go(lambda: weac.plot.stresses(m, x=xb, z=z, **kw, **seg), 'stress' + tag,
           [(xb / 10, 1e3 * m.tau(z), r'$\tau$'), (xb / 10, 1e3 * m.sig(z), r'$\sigma$')], 'Stress (kPa)', xb)
        close(rec, 'stress law', [m.sig(z), m.tau(z)], [sec.sig(S), sec.tau(S)],
              np.max(np.abs([sec.sig(S), sec.tau(S)])), 1e-6, 'weak-layer stresses')
    else:
        y = np.abs(m.sig(z)) * 1e3
        froz.append(y)
        go(lambda: weac.plot.stress_criteria(xb, y, **seg), 'crit',
           [(xb / 10, y, r'$\sigma/\sigma_\mathrm{c}$')], 'Criteria', xb)
    md.labels(rec, c, s)
    rec.label(kind, 'numbered' if i is not None else None, 'segments given' if seg else 'no segments')


def check_err(c, rec):
    rng = np.random.default_rng(c['seed'])
    da = np.cumsum(rng.uniform(1, 30, c['n']))
    G1 = rng.uniform(0, 1e-3, (3, c['n']))
    G2 = rng.uniform(0, 1e-3, (3, c['n']))
    if c['kind'] == 'comp':
        mode = c['mode']
        kw = {} if mode is None else {'mode': mode}
        shot, _ = draw(lambda: weac.plot.err_comp(da, G1, G2, **kw), 'err', [da, G1, G2])
        j = mode or 0
        want = [(da / 10, 1e3 * G1[j], r'$\mathcal{G}$'), (da / 10, 1e3 * G2[j], r'$\bar{\mathcal{G}}$')]
    else:
        kind = c['rate']
        kw = {} if kind is None else {'kind': kind}
        shot, _ = draw(lambda: weac.plot.err_modes(da, G1, **kw), 'modes', [da, G1])
        sym = r'$\mathcal{G}$' if kind == 'dif' else r'$\bar{\mathcal{G}}$'
        want = [(da / 10, 1e3 * G1[j], sym + r) for j, r in enumerate(
            [r'$_\mathrm{I+I\!I}$', r'$_\mathrm{I}$', r'$_\mathrm{I\!I}$'])]
    check_lines(shot, c['kind'], want)
    if 'J/m' not in shot.labels[0][1] or '(cm)' not in shot.labels[0][0]:
        raise Violation(f'axis labels {shot.labels[0]}')
    if shot.spans:
        raise Violation('shaded extent in a plot over crack length')
    rec.label(c['kind'])
    rec.nontrivial = True


def check_data(c, rec):
    """plot_data and the comparison with finite-element data."""
    rng = np.random.default_rng(c['seed'])
    n = c['n']
    x = np.cumsum(rng.uniform(0.1, 5, n))
    if c['kind'] == 'data':
        ser = []
        for k in range(c['series']):
            y = rng.normal(size=n) * 10 ** rng.uniform(-6, 4)
            xk = x.copy()
            if c['gaps'] and n > 6:
                xk[rng.integers(1, n - 3):][:2] = np.nan
            ser.append([xk, y, ['a', 'FEA b', 'c', ''][k]])
        ax2 = [[x, rng.normal(size=n), 'right']] if c['two'] else None
        kw = {'li': np.array(c['li']), 'mi': np.array(c['mi']), 'ki': np.array(c['ki'])} if c['segs'] else {}
        if ax2:
            kw.update(ax2data=ax2, ax2label='right axis')
        if c['pos'] is not None:
            kw['labelpos'] = min(c['pos'], n - 1)
        froz = [v for t in ser + (ax2 or []) for v in t[:2]]
        shot, _ = draw(lambda: weac.plot.plot_data('data', ser, 'left axis', vlines=c['vlines'], **kw), 'data', froz)
        check_lines(shot, 'data', ser + (ax2 or []))
        if 'left axis' not in shot.labels[0][1] or (ax2 and 'right axis' not in shot.labels[1][1]):
            raise Violation(f'axis labels {shot.labels}')
        if c['vlines']:
            check_marks(shot, 'data', rec, *((c['li'], c['mi'], c['ki']) if c['segs'] else ([x[-1]], [], [])))
        elif shot.spans or shot.vlines:
            raise Violation('separators drawn without request')
        rec.label('right axis' if ax2 else None)
    else:
        cc = {'slab': {'layers': [[240, 200]]}, 'weak': {'t': 30, 'E': 0.25, 'nu': 0.25}, 'phi': c['phi'], 'p': 0,
              'st': {'system': 'skier', 'L': 5e3, 'a': 100, 'm': 80}}
        m, s, C = md.solve(cc)
        xq, z, xb = m.rasterize_solution(C, cc['phi'], num=c['n'], **s)
        sec = md.section(cc)
        S = md.as_state(m, z)
        fea = np.column_stack([x * 10, rng.normal(size=(n, 5))])
        f = fea[::-1]
        X = fea[:, 0] / 10
        if c['kind'] == 'fea_disp':
            shot, _ = draw(lambda: weac.plot.fea_disp(m, xq, z, fea), 'fea_disp', [xq, z, fea], m)
            want = [(X, -f[:, 1], r'FEA $u_0$'), (X, f[:, 2], r'FEA $w_0$'), (X, np.rad2deg(f[:, 5]), r'FEA $\psi$'),
                    (xq / 10, S[0], r'$u_0$'), (xq / 10, -S[1], r'$-w$'), (xq / 10, np.rad2deg(S[2]), r'$\psi$')]
        else:
            shot, _ = draw(lambda: weac.plot.fea_stress(m, xb, z, fea), 'fea_stress', [xb, z, fea], m)
            want = [(X, 1e3 * f[:, 2], r'FEA $\sigma_2$'), (X, 1e3 * f[:, 3], r'FEA $\tau_{12}$'),
                    (xb / 10, 1e3 * m.tau(z), r'$\tau$'), (xb / 10, 1e3 * m.sig(z), r'$\sigma$')]
        check_lines(shot, c['kind'], want)
        if '(cm)' not in shot.labels[0][0] or {'fea_disp': '(mm)', 'fea_stress': '(kPa)'}[c['kind']] not in shot.labels[0][1]:
            raise Violation(f'axis labels {shot.labels[0]}')
    rec.label(c['kind'])
    rec.nontrivial = True


def close_points(got, want, scale):
    """Same closed path up to start and direction: same points, same length."""
    for g in got:
        g = g[:, ~np.isnan(g).any(axis=0)]
        if g.shape[1] == 0:
            continue
        d = np.hypot(*(g[:, :, None] - want[:, None, :]))
        if d.min(axis=0).max() > 1e-9 * scale or d.min(axis=1).max() > 1e-9 * scale:
            continue
        lg, lw = (np.sum(np.hypot(*np.diff(v, axis=1))) for v in (g, want))
        if abs(lg - lw) <= 1e-6 * scale * g.shape[1]:
            return True
    return False


def boundary(X, Z):
    """Points along the closed boundary of a grid (rows from top to bottom)."""
    n, k = X.shape
    idx = ([(0, j) for j in range(k)] + [(i, k - 1) for i in range(1, n)]
           + [(n - 1, j) for j in range(k - 2, -1, -1)] + [(i, 0) for i in range(n - 2, -1, -1)])
    r, q = np.array(idx).T
    return np.array([X[r, q], Z[r, q]])


def check_deformed(c, rec):
    c, m, s, C, x, z, xb = solution(c)
    for o in [c['opt']] + c['again']:
        one_deformed(c, rec, m, s, x, z, xb, o)
    rec.label('several plots of a solution' if c['again'] else None)


def one_deformed(c, rec, m, s, x, z, xb, o):
    sec = md.section(c)
    dz = o.get('dz', 2)
    scale = o.get('scale', 100)
    field = o.get('field', 'principal')
    norm = o.get('normalize', True)
    nlev = o.get('levels', 300)
    pad = o.get('pad', 2)
    name = o.get('filename', 'cont')
    phi = c['phi']
    shot, fields = draw(lambda: weac.plot.deformed(m, xsl=x, xwl=xb, z=z, phi=phi, **o), name,
                        [x, z, xb, *s.values()], m)
    S = md.as_state(m, z)
    # depth of the mesh rows: faces and equally spaced points of each layer
    zi = np.concatenate([np.linspace(a, b, int(np.ceil((b - a) / dz - 1e-9)) + 1)
                         for a, b in zip(sec.top, sec.bot)])
    if len(zi) != len(m.get_zmesh(dz=dz)):
        zi = m.get_zmesh(dz=dz)[:, 0]       # rounding of the point count; C26 decides the mesh
    U = (S[0] + np.outer(zi, S[2])) / 10
    W = np.tile(S[1], (len(zi), 1)) / 10
    off = x.max() / 2 if s is not None and c['st']['system'] in ('skier', 'skiers') else 0
    X, Z = np.meshgrid((x - off) / 10, (zi + sec.h / 2) / 10)
    size = max(np.ptp(X), np.ptp(Z)) + scale * max(np.abs(U).max(), np.abs(W).max())
    drawn = [np.array(l[:2]) for l in shot.lines]
    if not close_points(drawn, boundary(X, Z), size):
        raise Violation('outline of the undeformed slab is missing')
    if not close_points(drawn, boundary(X + scale * U, Z + scale * W), size):
        raise Violation('outline of the deformed slab is missing')
    if c['st']['system'] in gen.PST:
        k = ~np.isnan(xb)
        foot = np.max(Z + scale * W) + pad
        wl = boundary(np.vstack([X[-1] + scale * U[-1], X[-1]])[:, k], np.vstack([Z[-1] + scale * W[-1], np.full(len(x), foot)])[:, k])
        if not close_points(drawn, wl, size + pad):
            raise Violation('outline of the weak layer is missing')
    # contours
    slabs = [f for f in fields if f[0][2].shape == X.shape]
    weaks = [f for f in fields if f[0][2].shape == (2, len(x))]
    if len(fields) != 2 or not slabs or not weaks:
        raise Violation(f'contour fields {[f[0][2].shape for f in fields]}')
    fs, fw = fields if fields[0][0][2].shape == X.shape else fields[::-1]
    (gx, gz, gv), lev = fs
    close(rec, 'mesh', gx, X + scale * U, size, 1e-9, 'x of the deformed mesh')
    close(rec, 'mesh', gz, Z + scale * W, size, 1e-9, 'z of the deformed mesh')
    sup = ~np.isnan(xb)
    if field == 'u':
        want, weak = 1e4 * U, 1e4 * U[-1]
    elif field == 'w':
        want, weak = 1e4 * W, 1e4 * W[-1]
    elif field == 'Sxx':
        want, weak = m.Sxx(z, phi, dz=dz, unit='kPa'), 0 * x
    elif field == 'Txz':
        want, weak = m.Txz(z, phi, dz=dz, unit='kPa'), 1e3 * sec.tau(S)
    elif field == 'Szz':
        want, weak = m.Szz(z, phi, dz=dz, unit='kPa'), 1e3 * sec.sig(S)
    else:
        want = m.principal_stress_slab(z, phi, dz=dz, val='max', unit='kPa', normalize=norm)
        t, sg = sec.tau(S), sec.sig(S)
        weak = 1e3 * (sg / 2 - np.hypot(sg / 2, t))
        if norm:
            weak = weak / 2.6   # compressive strength (kPa), signed like the stress
    mag = np.max(np.abs(want)) + np.max(np.abs(np.broadcast_to(weak, x.shape)[sup])) + 1e-30
    close(rec, 'slab field', gv, want, mag, 1e-7, f'slab contour values ({field})')
    wx, wz, wv = fw[0]
    wv = np.atleast_2d(wv)
    if field == 'principal' and norm:
        ratio = wv[:, sup] / np.where(weak[sup] == 0, 1, weak[sup])
        big = np.broadcast_to(np.abs(weak[sup]) > 1e-6 * mag, ratio.shape)
        if big.any() and np.ptp(ratio[big]) > 1e-6 * np.abs(ratio[big]).max():
            raise Violation('weak-layer contour is not proportional to the principal stress')
        direct = m.principal_stress_weaklayer(z, val='min', unit='kPa', normalize=True)
        close(rec, 'weak field', wv[:, sup], np.vstack([direct, direct])[:, sup], mag, 1e-7, 'weak-layer contour')
    else:
        close(rec, 'weak field', wv[:, sup], np.vstack([weak, weak])[:, sup], mag, 1e-7,
              f'weak-layer contour values ({field})')
    wbot = np.max(Z + scale * W) + pad
    close(rec, 'mesh', np.array(wx)[:, sup], np.vstack([X[-1] + scale * U[-1], X[-1]])[:, sup], size, 1e-9,
          'x of the weak-layer mesh')
    close(rec, 'mesh', np.array(wz)[:, sup],
          np.vstack([Z[-1] + scale * W[-1], np.full(len(x), wbot)])[:, sup], size + pad, 1e-9,
          'z of the weak-layer mesh')
    if not np.isnan(np.array(wx)[:, ~sup]).all():
        raise Violation('weak layer drawn in an unsupported segment')
    # colour range
    top = max(np.abs(gv).max(), np.nanmax(np.abs(wv)))
    for l in (fs[1], fw[1]):
        if len(l) != nlev + 1 or abs(l[0] + l[-1]) > 1e-9 * l[-1]:
            raise Violation(f'{len(l)} levels from {l[0]} to {l[-1]}')
        # the range may leave out the weak layer (weac does where a segment
        # has none: the smallest of values with a NaN is NaN)
        if top > 0 and not 0.6 * np.abs(gv).max() <= l[-1] <= 1.6 * top:
            raise Violation(f'levels up to {l[-1]} for values up to {top}')
    # view
    lo, hi = shot.xlim
    if 'window' in o:
        near = X[0][S[1] >= np.max(S[1]) - 1e-9 * np.max(np.abs(S[1]))]     # deflections may be equal
        if lo < near.min() - o['window'] / 2 - 1e-6 * size or hi > near.max() + o['window'] / 2 + 1e-6 * size:
            raise Violation(f'view from {lo} to {hi} exceeds window of {o["window"]} about {near}')
    else:
        xm = np.concatenate([(X + scale * U).ravel(), X.ravel()])
        close(rec, 'view', [lo, hi], [xm.min() - pad, xm.max() + pad], size + pad, 1e-6, 'horizontal limits')
    if shot.ylim[0] < shot.ylim[1]:
        raise Violation('depth axis does not point downwards')
    if shot.ylim[0] < wbot - 1e-6 * (size + pad) or shot.ylim[1] > 1e-6 * (size + pad):
        raise Violation(f'depths from {shot.ylim[1]} to {shot.ylim[0]} shown, slab and weak layer reach from 0 to {wbot}')
    if str(scale) not in shot.labels[0][2]:
        raise Violation(f'title {shot.labels[0][2]!r} does not name the scale {scale}')
    text = ' '.join(' '.join(l) for l in shot.labels)
    sym = {'u': r'$u$', 'w': r'$w$', 'Sxx': 'xx', 'Txz': 'xz', 'Szz': 'zz', 'principal': r'\mathrm{I}'}[field]
    unit = {'u': r'\mu', 'w': r'\mu'}.get(field, '/' if field == 'principal' and norm else 'kPa')
    if sym not in text or unit not in text:
        raise Violation(f'labels {text!r} for field {field}')
    md.labels(rec, c, s)
    rec.label('field ' + field, 'window' if 'window' in o else None, 'dark' if o.get('dark') else None)
    rec.nontrivial = True


def check_profile(c, rec):
    m = md.build({**c, 'weak': {'t': 30, 'E': 0.25, 'nu': 0.25}})
    sec = md.section({**c, 'weak': {'t': 30, 'E': 0.25, 'nu': 0.25}})
    shot, _ = draw(lambda: weac.plot.slab_profile(m), 'profile', [m.slab], m)
    y0 = sec.h / 2 - sec.bot
    y1 = sec.h / 2 - sec.top
    ym = (y0 + y1) / 2
    paths = [p for k in shot.polys for p in k.get_paths()]
    if not paths:
        raise Violation('profile without shape')

    def inside(x, y):
        return np.any([p.contains_points(np.column_stack([x, y])) for p in paths], axis=0)
    eps = 1e-6 * sec.h
    for y in (ym, y0 + 1e-3 * (y1 - y0), y1 - 1e-3 * (y1 - y0)):
        if not (inside(sec.rho * 0.999, y).all() and not inside(sec.rho * 1.001, y).any()):
            raise Violation(f'profile does not show densities {sec.rho} over thicknesses {sec.th}')
    v = np.concatenate([p.vertices for p in paths])
    if abs(v[:, 1].min()) > eps or abs(v[:, 1].max() - sec.h) > eps:
        raise Violation(f'profile from {v[:, 1].min()} to {v[:, 1].max()}, slab thickness {sec.h}')
    if shot.xlim[0] < shot.xlim[1] or 'kg/m' not in shot.labels[0][0] or 'mm' not in shot.labels[0][1]:
        raise Violation(f'axes {shot.xlim}, {shot.labels[0]}')
    rec.label('one layer' if len(sec.th) == 1 else 'layered')
    rec.nontrivial = True


def structs():
    return st.one_of(gen.auto_struct(), gen.skiers_struct(max_seg=5), gen.free_struct(max_seg=4),
                     gen.touch_struct())


def wrappers():
    return st.builds(lambda a, b: {**a, **b}, gen.config(structs()), st.fixed_dictionaries({
        'num': gen.num(30, 200), 'i': st.one_of(st.none(), gen.num(0, 30)), 'segs': st.sampled_from([True] * 4 + [False]),
        'kind': st.sampled_from(['displacements', 'section_forces', 'stresses', 'criteria'])}))


def contours():
    opt = st.fixed_dictionaries({'dz': st.sampled_from([3, 10, 15, 30]), 'levels': gen.num(2, 40),
                                 'field': st.sampled_from(['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal'])},
                                optional={'scale': gen.num(1, 400), 'window': gen.num(20, 800), 'pad': gen.num(1, 10),
                                          'normalize': st.booleans(), 'dark': st.booleans(),
                                          'filename': st.sampled_from(['cont', 'plot1', 'x y'])})
    return st.builds(lambda a, n, o, b: {**a, 'num': n, 'opt': o, 'again': b}, gen.config(structs(), steep=80, max_layers=5),
                     gen.num(20, 60), opt, st.one_of(st.just([]), st.lists(opt, min_size=1, max_size=2)))


def rates():
    return st.fixed_dictionaries({'seed': gen.num(0, 10**6), 'n': gen.num(2, 100), 'kind': st.sampled_from(['comp', 'modes']),
                                  'mode': st.sampled_from([None, 0, 1, 2]), 'rate': st.sampled_from([None, 'inc', 'dif'])})


@st.composite
def data(draw):
    k = draw(gen.num(1, 4))
    return {'seed': draw(gen.num(0, 10**6)), 'n': draw(gen.num(4, 120)), 'series': draw(gen.num(1, 4)),
            'kind': draw(st.sampled_from(['data', 'data', 'fea_disp', 'fea_stress'])), 'gaps': draw(st.booleans()),
            'two': draw(st.booleans()), 'vlines': draw(st.booleans()), 'segs': draw(st.booleans()),
            'pos': draw(st.one_of(st.none(), gen.num(1, 100))), 'phi': draw(gen.num(-40, 40)),
            'li': draw(st.lists(gen.num(1, 500), min_size=k, max_size=k)),
            'ki': draw(st.lists(st.booleans(), min_size=k, max_size=k)),
            'mi': draw(st.lists(st.sampled_from([0, 80]), min_size=k - 1, max_size=k - 1))}


SUBS = [
    Sub('lines', wrappers, check_wrappers, (160, 3000), 'displacement, force, stress and criteria plots of solutions'),
    Sub('data', data, check_data, (80, 1000), 'random series on one or two axes; finite-element comparisons'),
    Sub('rates', rates, check_err, (64, 600), 'energy release rate plots'),
    Sub('deformed', contours, check_deformed, (120, 3000), 'contour plots of solutions'),
    Sub('profile', lambda: st.fixed_dictionaries({'slab': gen.slab()}), check_profile, (64, 600), 'density profiles'),
]
