"""Generators of JSON-able cases. Ranges follow what the API documents."""
from hypothesis import strategies as st


def num(lo, hi, digits=0):
    """Uniform decimal numbers with few digits (shrink towards small values)."""
    f = 10**digits
    a, b = round(lo * f), round(hi * f)
    if digits == 0:
        return st.integers(a, b)
    if a <= 0 <= b:
        return st.integers(a, b).map(lambda k: k / f)
    return st.integers(0, b - a).map(lambda k: (a + k) / f)


def lognum(lo, hi):
    return st.integers(0, 300).map(lambda k: float('%.4g' % (lo * (hi / lo) ** (k / 300))))


DB = {
    'a': 'hms', 'b': 'smh', 'c': 'hsh', 'd': 'shs', 'e': 'hss', 'f': 'ssh',
    'h': 'mmm', 'soft': 'sss', 'medium': 'mmm', 'hard': 'hhh', 'comp': None,
}
KIND = {'s': (180.0, 120.0, 5.0), 'm': (270.0, 120.0, 30.0), 'h': (350.0, 120.0, 93.8)}


def db_rows(name):
    """Rows (density, thickness, E) of a named profile, top to bottom."""
    k = name.split()[-1].lower()
    if k == 'comp':
        return [(240.0, 200.0, 5.23)]
    return [KIND[c] for c in DB[k]]


def layer(maxh=250):
    plain = st.tuples(num(60, 550), num(5, maxh)).map(list)
    # fractional values, thin crusts, very light and very dense snow
    odd = st.tuples(st.one_of(num(60, 550, 1), num(30, 900)), st.one_of(num(5, maxh, 2), num(1, 8, 1))).map(list)
    return st.integers(0, 5).flatmap(lambda k: odd if k == 5 else plain)


def layer_list(max_layers=7, maxh=250):
    usual = st.integers(1, max_layers).flatmap(
        lambda n: st.lists(layer(maxh), min_size=n, max_size=n))
    # measured profiles have many thin layers
    many = st.integers(8, 25).flatmap(
        lambda n: st.lists(layer(min(maxh, 60)), min_size=n, max_size=n))
    if max_layers < 6:
        return usual
    return st.integers(0, 15).flatmap(lambda k: many if k == 15 else usual)


def db_name():
    return st.tuples(st.sampled_from(['', 'profile ', 'snow profile ']),
                     st.sampled_from(sorted(DB)), st.booleans()).map(
        lambda t: t[0] + (t[1].upper() if t[2] else t[1]))


def slab(db=True, custom=True, max_layers=7, maxh=250):
    """Slab description: layers, container form, material parameters."""
    lay = layer_list(max_layers, maxh)
    if db:
        plain = lay
        lay = st.integers(0, 5).flatmap(lambda k: db_name() if k == 5 else plain)
    d = {'layers': lay, 'form': st.sampled_from(['list', 'list', 'array', 'tuples'])}
    if custom:
        d['C0'] = st.one_of(st.just(6.5), st.just(6.5), num(1, 20, 1))
        d['C1'] = st.one_of(st.just(4.4), st.just(4.4), num(2.5, 5.5, 1))
        d['nu'] = st.one_of(st.just(0.25), st.just(0.25), num(0, 0.45, 2))
    return st.fixed_dictionaries(d)


def weak():
    return st.fixed_dictionaries({
        't': st.one_of(st.just(30), num(1, 60), num(0.5, 10, 1), num(1, 200)),
        'E': st.one_of(st.just(0.25), lognum(0.03, 6), lognum(0.01, 30)),
        'nu': st.one_of(st.just(0.25), num(0, 0.45, 2)),
    })


def phi(steep=89):
    return st.integers(0, 9).flatmap(lambda k: (
        st.sampled_from([0, 38, -38, 25, -30]) if k < 2 else
        num(-60, 60, 1) if k < 7 else
        num(-1, 1, 3) if k < 8 else num(-steep, steep, 1)))


def surface():
    """Surface line load (N/mm)."""
    return st.one_of(st.just(0), st.just(0), lognum(1e-5, 0.01))


PST = ['pst-', '-pst', 'vpst-', '-vpst']
SYSTEMS = PST + ['skier', 'skiers']


def length():
    return st.one_of(lognum(400, 40000), num(500, 6000))


def mass():
    return st.one_of(st.just(0), num(1, 200), num(1, 200, 1), num(1, 2000))


@st.composite
def auto_struct(draw, systems=('pst-', '-pst', 'vpst-', '-vpst', 'skier'), touch=False):
    """Arguments of calc_segments for systems defined by L, a, m."""
    system = draw(st.sampled_from(systems))
    L = draw(length())
    a = draw(st.one_of(st.just(0), num(0.01, 0.95, 3).map(lambda f: f),
                       num(0.01, 0.4, 2)))
    a = round(a * L, 2)
    d = {'system': system, 'L': L, 'a': a, 'touch': bool(touch)}
    if system == 'skier':
        d['m'] = draw(mass())
    if touch:
        d['cf'] = draw(st.one_of(st.just(0.5), num(0.05, 0.95, 2)))
        d['ratio'] = draw(st.one_of(st.just(1000), num(1, 5000)))
    return d


def seg_length():
    return st.one_of(st.just(0), num(1, 100), num(10, 2000), num(10, 6000), num(0.01, 5, 2))


@st.composite
def skiers_struct(draw, max_seg=7, min_seg=1, system='skiers', zero_ok=True):
    """Lists of segments for system 'skiers' (ends supported)."""
    n = draw(st.integers(min_seg, max_seg))
    if n == 1:
        return {'system': system, 'li': [draw(num(300, 15000))], 'mi': [], 'ki': [True],
                'k0': [True], 'touch': False}
    inner = seg_length() if zero_ok else num(1, 6000)
    li = ([draw(num(100, 12000))] + [draw(inner) for _ in range(n - 2)]
          + [draw(num(100, 12000))])
    ki = [True] + [draw(st.booleans()) for _ in range(n - 2)] + [True]
    mi = [draw(mass()) for _ in range(n - 1)]
    # the intact configuration may itself contain cracks
    k0 = [k or draw(st.sampled_from([True, True, True, False])) for k in ki]
    return {'system': system, 'li': li, 'mi': mi, 'ki': ki, 'k0': k0, 'touch': False}


def struct(touch=False):
    if touch:
        return auto_struct(systems=('pst-', '-pst'), touch=True)
    return st.one_of(auto_struct(), skiers_struct())


@st.composite
def config(draw, struct_st=None, steep=85, **kw):
    """Complete configuration: slab, weak layer, loads, structure."""
    c = {'slab': draw(slab(**kw)), 'weak': draw(weak()), 'phi': draw(phi(steep)),
         'p': draw(surface())}
    c['st'] = draw(struct_st if struct_st is not None else struct())
    return constants(draw, c)


def constants(draw, c):
    """Other values of the documented attributes g and lski."""
    k = draw(st.integers(0, 9))
    if k in (8, 9):
        c['g'] = draw(num(1000, 20000))
    if k in (7, 9):
        c['lski'] = draw(num(100, 3000))
    return c


@st.composite
def base(draw, steep=85, **kw):
    c = {'slab': draw(slab(**kw)), 'weak': draw(weak()), 'phi': draw(phi(steep)), 'p': draw(surface())}
    return constants(draw, c)


@st.composite
def free_struct(draw, max_seg=6, vertical=True):
    """Segment lists solved directly on free-standing columns (any support
    pattern with a sufficiently long supported segment)."""
    system = draw(st.sampled_from(PST if vertical else PST[:2]))
    n = draw(st.integers(1, max_seg))
    li = [draw(seg_length()) for _ in range(n)]
    ki = [draw(st.booleans()) for _ in range(n)]
    j = draw(st.integers(0, n - 1))
    ki[j], li[j] = True, draw(num(400, 8000))
    mi = [draw(mass()) for _ in range(n - 1)]
    return {'system': system, 'li': li, 'mi': mi, 'ki': ki, 'k0': [True] * n, 'touch': False}


def any_struct():
    """Everything that is solved without touchdown."""
    return st.one_of(auto_struct(), skiers_struct(), free_struct())


def touch_struct(min_rest=0.3):
    """Parameters of a PST with touchdown; md.resolve_touch turns them into a
    column (the lengths depend on the slab)."""
    return st.fixed_dictionaries({
        'system': st.sampled_from(['pst-', '-pst']), 'touch': st.just(True),
        'stage': st.sampled_from('ABCBC'), 'f': num(0, 1, 3), 'rest': num(min_rest, 12, 1),
        'cf0': st.one_of(st.none(), num(0.05, 0.95, 2)),
        'ratio': st.one_of(st.just(1000), num(2, 5000)),
    })
