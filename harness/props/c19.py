"""The touchdown-distance tool."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, ref
from harness import model as md
from harness.core import Sub, Violation, close
from harness.props.c16 import bracket

import weac

ID = 'C19'
TITLE = 'The touchdown-distance tool agrees with the touchdown model'
TECHNIQUE = 'property-based testing: root bracketing in an independent beam model'
NOTE = (
    'Random profiles (list, array, named, default), parametrisations, weak layers and inclinations with positive '
    'collapse height: the three lengths must be bracketed by sign changes of the contact conditions of the '
    'independent beam model of a very long column; symmetry in the inclination; order of the lengths.'
)
L = 1e5


def check(c, rec):
    s = c['slab']
    kw = dict(c['kw'])
    default = s['layers'] is None or (not isinstance(s['layers'], str) and len(s['layers']) == 0)
    slab = {**s, 'layers': [[240, 200]] if default else s['layers'], 'nu': 0.25,
            'C0': kw.get('C0', 6.5), 'C1': kw.get('C1', 4.4)}
    phi = kw.get('phi', 0)
    sec = md.section({'slab': slab, 'weak': {'t': kw.get('t', 10), 'E': kw.get('Ewl', 0.25), 'nu': 0.25}})
    T = ref.Touchdown(sec, phi, L)
    if T.tc <= 0.02 * sec.t:
        return              # settlement exceeds the collapse height: no touchdown model
    if default and s['layers'] is None:
        got = weac.tools.touchdown_distance(**kw)
    else:
        got = weac.tools.touchdown_distance(layers=[] if default else md.layers_arg(s), **kw)
    if len(got) != 3:
        raise Violation(f'{len(got)} values returned')
    a1, a2, td = (float(v) for v in got)
    if not 0 < a1 < a2:
        raise Violation(f'first contact at {a1}, full contact at {a2}')
    far = T.springs(L / 2)
    bracket(lambda x: T.tip_deflection(x, far) / T.tc - 1, a1, 1e-5 * a1, 'cut length of first contact', True)
    bracket(lambda x: T.tip_slope(x, far), a2, 1e-5 * a2, 'cut length of full contact', False)
    if a2 < 4.5 * a1:
        what = 'steady-state touchdown distance'
        try:        # the documented cut of five times the first contact
            kR = ref.unit_stiffness(sec, 5 * a1 - td, 1000.0, 'rot')
            bracket(lambda x: T.tip_slope(x, far, kR), td, 1e-5 * td, what, False)
        except Violation:       # any longer cut is as good
            kR = ref.unit_stiffness(sec, 2e4, 1000.0, 'rot')
            bracket(lambda x: T.tip_slope(x, far, kR), td, 5e-5 * td, what, False)
    else:
        rec.label('late full contact')
    kw['phi'] = -phi
    other = weac.tools.touchdown_distance(layers=slab['layers'] if default else md.layers_arg(s), **kw)
    close(rec, 'mirror', other, got, np.abs(got), 1e-7, 'lengths for the opposite inclination')
    rec.label('default profile' if default else 'named' if isinstance(s['layers'], str) else s['form'],
              'default arguments' if len(c['kw']) < 5 else None, 'one layer' if len(sec.th) == 1 else 'layered')
    rec.nontrivial = True


def cases():
    lay = st.integers(0, 9).flatmap(lambda k: st.none() if k == 8 else st.just([]) if k == 9 else
                                    gen.db_name() if k == 7 else gen.layer_list(6, 200))
    slab = st.fixed_dictionaries({'layers': lay, 'form': st.sampled_from(['list', 'array'])})
    kw = st.fixed_dictionaries({}, optional={
        'C0': gen.num(1, 15, 1), 'C1': gen.num(3, 5.5, 1), 'Ewl': gen.lognum(0.1, 5), 't': gen.num(1, 50),
        'phi': gen.phi(75)})
    return st.fixed_dictionaries({'slab': slab, 'kw': kw})


SUBS = [Sub('lengths', cases, check, (240, 6000), 'positive collapse height')]
