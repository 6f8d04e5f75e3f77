"""Rasterised solutions."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C10'
TITLE = 'Rasterised solutions sample the true solution on a complete ordered grid'
TECHNIQUE = 'property-based testing: grid invariants and point-wise agreement with the segment solutions'
NOTE = ('Random structures and resolutions: order, completeness, number of points, values at each point '
        'from the segment it lies in, mask of weak-layer positions.')


def check(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    m, s, C = md.solve(c)
    sec = md.section(c)
    num = c['num']
    kw = {} if num is None else {'num': num}
    num = 250 if num is None else num
    phi = c['phi']
    xq, zq, xb = m.rasterize_solution(C, phi, **kw, **s)
    li = np.asarray(s['li'], dtype=float)
    keep = [i for i in range(len(li)) if li[i] > 0]
    off = np.concatenate([[0], np.cumsum(li[keep])])
    L = off[-1]
    n = len(xq)
    tol = 1e-9 * L
    if zq.shape != (6, n) or xb.shape != (n,):
        raise Violation(f'shapes {xq.shape}, {zq.shape}, {xb.shape}')
    if not (np.isfinite(xq).all() and np.isfinite(zq).all()):
        raise Violation('grid or solution is not finite')
    if np.any(np.diff(xq) < -tol):
        raise Violation('positions are not ascending')
    close(rec, 'ends', [xq[0], xq[-1]], [0, L], L, 1e-9, 'ends of the grid')
    if np.any(np.diff(xq) <= 0.05 * min(L / max(num, 1), li[keep].min()) / 100):
        raise Violation('a position occurs twice')
    for k, b in enumerate(off):
        hits = np.sum(np.abs(xq - b) <= max(tol, 1e-7 * li[keep].min()))
        if hits != 1:
            raise Violation(f'segment boundary {b} occurs {hits} times')
    if abs(n - (num + 1)) > len(keep) + 1:
        raise Violation(f'{n} positions for num={num} and {len(keep)} segments')
    seg = np.clip(np.searchsorted(off, xq + tol, side='right') - 1, 0, len(keep) - 1)
    got = md.as_state(m, zq)
    S = md.scales(sec, phi, md.forces(c, s, sec), got)
    share = np.bincount(seg, minlength=len(keep)) - np.eye(len(keep))[-1]
    for k, i in enumerate(keep):
        want = num * li[i] / L
        if abs(share[k] - want) > 2:
            raise Violation(f'{share[k]:.0f} positions in a segment that takes {want:.1f} of {num}')
        r = np.where(seg == k)[0]
        if len(r) > 12:
            r = r[np.unique(np.concatenate([[0, 1, len(r) - 1], np.linspace(0, len(r) - 1, 9).astype(int)]))]
        for q in r:
            x = xq[q]
            ref = md.seg_state(m, s, C, i, float(np.clip(x - off[k], 0, li[i])), phi)[:, 0]
            d = np.abs(got[:, q] - ref) / S
            if not d.max() <= 1e-8 and k > 0 and abs(x - off[k]) <= tol:
                j = keep[k - 1]     # at a joint either side counts
                ref = md.seg_state(m, s, C, j, li[j], phi)[:, 0]
            close(rec, 'state', got[:, q], ref, S, 1e-8, f'state at x={x}')
        inner = np.array([q for q in np.where(seg == k)[0] if not (k > 0 and abs(xq[q] - off[k]) <= tol)
                          and not (k < len(keep) - 1 and abs(xq[q] - off[k + 1]) <= tol)], dtype=int)
        b = xb[inner]
        if s['ki'][i]:
            if not np.allclose(b, xq[inner], rtol=0, atol=tol):
                raise Violation('weak-layer positions differ from slab positions in a supported segment')
        elif not np.isnan(b).all():
            raise Violation('weak-layer positions in an unsupported segment')
    for k in range(1, len(keep)):
        q = int(np.argmin(np.abs(xq - off[k])))
        sup = s['ki'][keep[k - 1]] or s['ki'][keep[k]]
        if sup and not abs(xb[q] - xq[q]) <= tol:
            raise Violation(f'joint at {off[k]} touches a supported segment but has no weak layer')
        if not sup and not np.isnan(xb[q]):
            raise Violation(f'joint at {off[k]} between unsupported segments has a weak layer')
    md.labels(rec, c, s)
    rec.label('num default' if c['num'] is None else 'num < 20' if num < 20 else 'num >= 20',
              'unsupported end' if not (s['ki'][keep[0]] and s['ki'][keep[-1]]) else None)
    rec.nontrivial = len(keep) > 1


def cases(struct):
    return st.builds(lambda a, n: {**a, 'num': n}, gen.config(struct),
                     st.one_of(st.none(), gen.num(1, 30), gen.num(1, 1000)))


SUBS = [
    Sub('grid', lambda: cases(gen.any_struct()), check, (2000, 30000),
        'random structure and resolution; non-trivial with several segments'),
    Sub('touchdown', lambda: cases(gen.touch_struct()), check, (160, 2000), 'PST with touchdown'),
]
