"""Boundary and transition conditions of solved systems."""
import numpy as np

from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close

ID = 'C04'
TITLE = 'Solved systems satisfy all boundary and transition conditions'
TECHNIQUE = ('property-based testing: residuals of boundary and transition conditions of solved random '
             'structures')
NOTE = ('Random structures of every system type, with skiers, cracks, zero-length segments, touchdown in '
        'all stages: jumps at every joint and the end conditions, computed from section forces of '
        'independently computed stiffness, relative to the scale of the solution.')
NAMES = ['u', 'w', 'psi', 'N', 'M', 'V']
TOL = 1e-7


def check(c, rec):
    touch = c['st'].get('touch')
    if touch:
        c = md.resolve_touch(c)
    m, s, C = md.solve(c)
    sec = md.section(c)
    phi = c['phi']
    li, ki = s['li'], s['ki']
    n = len(li)
    if C.shape != (6, n):
        raise Violation(f'constants have shape {C.shape} for {n} segments')
    F = md.forces(c, s, sec)
    ends = [md.seg_state(m, s, C, i, np.array([0.0, li[i]]), phi) for i in range(n)]
    mids = [md.seg_state(m, s, C, i, li[i] * np.array([.25, .5, .75]), phi) for i in range(n)]
    if not all(np.isfinite(e).all() for e in ends):
        raise Violation('solution is not finite')
    S = md.scales(sec, phi, F, np.hstack(ends + mids))
    for j in range(n - 1):
        Fn, Ft = F[j]
        want = np.array([0, 0, 0, -Ft, Ft * sec.h / 2, -Fn])
        got = ends[j + 1][:, 0] - ends[j][:, 1]
        for r in range(6):
            close(rec, 'joint ' + NAMES[r], got[r], want[r], S[r], TOL,
                  f'jump of {NAMES[r]} at joint {j} with {s["mi"][j]} kg')
    L0, R0 = ends[0][:, 0], ends[-1][:, 1]
    system = s_ = c['st']['system']

    def end(name, st, rows, want, scale=None):
        for r, v in zip(rows, want):
            close(rec, 'end ' + NAMES[r], st[r], v, S[r] if scale is None else scale, TOL,
                  f'{NAMES[r]} at the {name} end of {system}')

    if system in ('skier', 'skiers'):
        u = sec.uniform(phi)
        for name, st in (('left', L0), ('right', R0)):
            end(name, st, (0, 1, 2), u[:3])
    elif system in ('vpst-', '-vpst'):
        mw, xs, zs = sec.wedge(phi)
        r = np.deg2rad(phi)
        fx, fz = -sec.g * mw * np.sin(r), sec.g * mw * np.cos(r)
        for name, st in (('left', L0), ('right', R0)):
            end(name, st, (3, 4, 5), (fx, fx * zs - fz * xs, fz))
    else:
        mode = m.mode if touch else 'A'
        right = s_ == 'pst-'
        if mode == 'A':
            end('left', L0, (3, 4, 5), (0, 0, 0))
            end('right', R0, (3, 4, 5), (0, 0, 0))
        else:
            free, hit = (L0, R0) if right else (R0, L0)
            sg = 1 if right else -1
            end('free', free, (3, 4, 5), (0, 0, 0))
            end('touching', hit, (1,), (m.tc,))
            if mode == 'B':
                end('touching', hit, (3, 4), (0, 0))
            else:
                rest = m.a - m.td
                kR = ref.unit_stiffness(sec, rest, c['st'].get('ratio', 1000), 'rot')
                qt = sec.q(phi)[1] + sec.ps(phi)[1]
                end('touching', hit, (3,), (sg * qt * rest,))
                M, psi = hit[4], hit[2]
                close(rec, 'end M+k psi', M, -sg * kR * psi, S[4] + kR * S[2], 1e-6,
                      f'moment of the substitute spring at the touching end of {system}')
        rec.label('stage ' + mode if touch else None)
    md.labels(rec, c, s)
    rec.label(f'{min(n, 5)} segments')
    rec.nontrivial = n > 1 and (any(v > 0 for v in s['mi']) or not all(ki))


SUBS = [
    Sub('conditions', lambda: gen.config(gen.any_struct()), check, (3200, 60000),
        'random configuration and structure; non-trivial with several segments and a load or a crack'),
    Sub('touchdown', lambda: gen.config(gen.touch_struct(), steep=80), check, (480, 8000),
        'random PST with touchdown'),
]
