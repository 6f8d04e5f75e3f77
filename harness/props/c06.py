"""Global equilibrium over arbitrary spans."""
import numpy as np
from hypothesis import strategies as st

from harness import gen
from harness import model as md
from harness.core import Sub, close

ID = 'C06'
TITLE = 'Weak-layer reactions and section forces balance the applied loads globally'
TECHNIQUE = 'property-based testing: integral balance of forces and moments over random spans'
NOTE = ('Weak-layer stresses of random solved structures integrated by Gauss quadrature over random '
        'spans; normal force, tangential force and moment balance with the loads and section forces at '
        'the cuts.')
ASSUMPTIONS = ['reactions integrated by composite Gauss quadrature on stretches of the decay length']
XG, WG = np.polynomial.legendre.leggauss(12)


def panels(a, b, lam):
    n = max(1, int(np.ceil((b - a) * lam / 1.5)))
    e = np.linspace(a, b, n + 1)
    d = np.diff(e)
    x = (e[:-1, None] + d[:, None] * (XG + 1) / 2).ravel()
    w = (d[:, None] * WG / 2).ravel()
    return x, w


def check(c, rec):
    if c['st'].get('touch'):
        c = md.resolve_touch(c)
    m, s, C = md.solve(c)
    sec = md.section(c)
    phi = c['phi']
    li, ki = np.asarray(s['li'], dtype=float), s['ki']
    off = np.concatenate([[0], np.cumsum(li)])
    L = off[-1]
    lam = sec.lam()
    F = md.forces(c, s, sec)
    qn, qt = sec.q(phi)
    pn, pt = sec.ps(phi)
    h, t = sec.h, sec.t
    x1, x2 = sorted((c['x1'] * L, c['x2'] * L)) if not c['whole'] else (0.0, L)
    if (x2 - x1) * lam > 150:
        x2 = x1 + 150 / lam
    whole = x1 == 0 and x2 == L
    inside = list(range(len(li))) if whole else [i for i in range(len(li)) if off[i + 1] > x1 and off[i] < x2]
    if not inside:
        return
    i1, i2 = inside[0], inside[-1]
    Rn = Rt = Rnx = 0.0          # weak-layer resultants and first moment
    mag = []
    for i in range(i1, i2 + 1):
        a, b = max(x1, off[i]) - off[i], min(x2, off[i + 1]) - off[i]
        if b <= a:
            continue
        if ki[i]:
            x, w = panels(a, b, lam)
            Z = m.z(x, C[:, [i]], li[i], phi, bed=True)
            sig, tau = m.sig(Z), m.tau(Z)
            Rn += np.sum(w * sig)
            Rt += np.sum(w * tau)
            Rnx += np.sum(w * sig * (off[i] + x - x1))
            mag.append(np.array([np.sum(w * abs(sig)), np.sum(w * abs(tau))]))
    a = md.seg_state(m, s, C, i1, x1 - off[i1], phi)[:, 0]
    b = md.seg_state(m, s, C, i2, x2 - off[i2], phi)[:, 0]
    joints = [(off[j + 1] - x1, F[j]) for j in range(i1, i2)]
    ell = x2 - x1
    # exclude skiers standing exactly on a cut: they are outside of [i1, i2)
    Fn = sum(f[0] for _, f in joints)
    Ft = sum(f[1] for _, f in joints)
    Fx = sum(x * f[0] for x, f in joints)
    Q = sec.mass * sec.g + abs(sec.p)
    sc = np.sum(mag, axis=0).sum() + Q * ell + sum(abs(f[0]) + abs(f[1]) for _, f in joints) \
        + abs(a[3:]).max() * (1 if ell else 0) * 0
    fN = sc + abs(a[3]) + abs(b[3])
    fV = sc + abs(a[5]) + abs(b[5])
    fM = sc * (ell + h + t) + abs(a[4]) + abs(b[4]) + (abs(b[5]) + abs(a[5])) * ell
    close(rec, 'normal', b[5] - a[5], -Rn - (qn + pn) * ell - Fn, fV, 1e-8, 'normal force balance')
    close(rec, 'tangential', b[3] - a[3], Rt - (qt + pt) * ell - Ft, fN, 1e-8,
          'tangential force balance')
    want = b[5] * ell + Rnx + (qn + pn) * ell**2 / 2 + Fx \
        + (h + t) / 2 * Rt - sec.zs * qt * ell + h / 2 * pt * ell + h / 2 * Ft
    close(rec, 'moment', b[4] - a[4], want, fM, 1e-8, 'moment balance')
    if c['st']['system'] in ('pst-', '-pst') and whole and (not c['st'].get('touch') or m.mode == 'A'):
        close(rec, 'carried', -Rn, (qn + pn) * L + Fn, sc, 1e-8,
              'slope-normal weight carried by the weak layer')
        close(rec, 'carried', Rt, (qt + pt) * L + Ft, sc, 1e-8,
              'slope-parallel weight carried by the weak layer')
        rec.label('whole free column')
    md.labels(rec, c, s)
    rec.label('several segments' if i2 > i1 else None)
    rec.nontrivial = i2 > i1


def cases(struct):
    return st.builds(lambda a, b: {**a, **b}, gen.config(struct), st.fixed_dictionaries({
        'x1': gen.num(0, 1, 3), 'x2': gen.num(0, 1, 3), 'whole': st.booleans()}))


SUBS = [
    Sub('balance', lambda: cases(gen.any_struct()), check, (1600, 24000),
        'random configuration, structure and span; non-trivial when the span covers several segments'),
    Sub('touchdown', lambda: cases(gen.touch_struct()), check, (320, 4000),
        'the same for PSTs with touchdown'),
]
