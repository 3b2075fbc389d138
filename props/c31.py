"""C31 the fields read from a solver are those of its current solution."""
import logging
from props.common import *
from props.c02 import gradients, gcf

META = {
    'bounds': '2 space dimensions on a mesh of two domains (and 3 dimensions on one); solutions of order one with arbitrary values and gradients at '
              'a point of either cell (density>0, speed of sound>0, gamma>1), replaced by others afterwards; every quantity under its symbol or its name, '
              'asked for, not mentioned or switched off; inviscid and strain-heat configurations with all strain and heat unknowns; the far-field, a given state '
              'by any complete combination, and different states on both domains as initial state',
    'outside': ['solutions of higher order', 'the gradient mixed method (recorded as a finding in C11)', 'defaults switched off by their long name'],
}
DEFAULT = ['rho', 'u', 'p', 'T']
STATE = ['rho_u', 'rho_E', 'rho_Ek', 'rho_Ei', 'c']
GRADIENT = ['rho', 'u', 'rho_u', 'rho_E', 'rho_Ek', 'rho_Ei', 'p', 'T']
UNKNOWN = ['H', 'vorticity']
LONG = {'rho_u': 'momentum', 'rho_E': 'energy', 'rho_Ek': 'kinetic_energy', 'rho_Ei': 'inner_energy', 'c': 'speed_of_sound',
        'rho': 'density', 'u': 'velocity', 'p': 'pressure', 'T': 'temperature'}
AT = (.3, .4, .35)


def place(cell, dim):
    return [AT[0] + cell, AT[1], AT[2]][:dim]


def linear(value, slope, at):
    """function with that value and gradient at the point"""
    import ngsolve as ngs
    f = ngs.CF(value)
    for c, s, a in zip((ngs.x, ngs.y, ngs.z), slope, at):
        f = f + s * (c - a)
    return f


def assign(env, cfg, cells, gfu):
    """cells: per cell a list of (value, slope) of each component"""
    dim = cfg.mesh.dim
    mats = list(dict.fromkeys(cfg.mesh.GetMaterials()))
    parts = [cf([linear(v, s, place(k, dim)) for v, s in comps]) for k, comps in enumerate(cells)]
    gfu.Set(parts[0] if len(parts) == 1 else cfg.mesh.MaterialCF(dict(zip(mats, parts))))


def solution(env, cfg, g, suffix=''):
    """arbitrary values and gradients in the cells, those of the cell looked at are true ones"""
    dim = cfg.mesh.dim
    ncell = 2 if dim == 2 else 1
    look = env.choose(f"cell{suffix}", range(ncell)) if ncell > 1 else 0
    tr = state(env, dim, g, suffix)
    gr = gradients(env, tr, g, dim, suffix)
    U = conserved(tr)
    slopes = [gr['rho']] + [gr['rho_u'][i * dim:(i + 1) * dim] for i in range(dim)] + [gr['rho_E']]
    own = list(zip(U, slopes))
    other = [(v * 2 + 1, [0] * dim) for v in U]
    assign(env, cfg, [own if k == look else other for k in range(ncell)], cfg.gfus['U'])
    return look, tr, gr


def configuration(env, dim, viscous=False):
    g = gas(env)
    mesh = env.strip(materials=('one', 'two')) if dim == 2 else env.cube()
    cfg = solver(env, dim, g, mesh=mesh)
    cfg.fem.order = 1
    if viscous:
        cfg.dynamic_viscosity = 'constant'
        cfg.mach_number, cfg.reynolds_number, cfg.prandtl_number = .3, 100, .7
        cfg.fem.mixed_method = 'strain_heat'
    cfg.initialize()
    return cfg, g


def compare(env, label, got, look, want, dim):
    env.eq(label, env.value(got, None, place(look, dim), region=look, element=look), want, tol=1e-5)


def check(env, fields, keys, look, tr, gr, dim):
    env.holds('exactly what was asked for', set(fields) == {LONG.get(k, k) if not k.startswith('grad_') else LONG[k[5:]] + '_gradient' for k in keys})
    for k in keys:
        if k.startswith('grad_'):
            compare(env, k, getattr(fields, k), look, gr[k[5:]], dim)
        else:
            compare(env, k, getattr(fields, k), look, tr[k], dim)


def asked(quantity):
    return f"grad_{quantity[5:]}" if quantity.startswith('grad_') else quantity


def spelled(env, k):
    if env.bool('by name'):
        return LONG[k[5:]] + '_gradient' if k.startswith('grad_') else LONG[k]
    return k


def quantities(dim, pool):
    def fn(env):
        cfg, g = configuration(env, dim)
        look, tr, gr = solution(env, cfg, g)
        extra = env.choose('quantity', pool)
        ask = {spelled(env, extra): True}
        keys = DEFAULT + ([extra] if extra not in DEFAULT else [])
        off = env.choose('without', ['nothing'] + [k for k in DEFAULT if k != extra])
        if off != 'nothing':
            ask[off] = False
            keys = [k for k in keys if k != off]
        fields = cfg.get_fields(**ask)
        check(env, fields, keys, look, tr, gr, dim)
    return fn


def several(env):
    """two quantities at once, one of which may be declined"""
    cfg, g = configuration(env, 2)
    look, tr, gr = solution(env, cfg, g)
    a, b = env.choose('first', ['rho_E', 'grad_u', 'c']), env.choose('second', ['rho_u', 'grad_p', 'grad_rho_u'])
    flag = env.bool('wanted')
    fields = cfg.get_fields(**{a: True, b: flag})
    check(env, fields, DEFAULT + [a] + ([b] if flag else []), look, tr, gr, 2)


def live(env):
    """the fields follow the solution, and reading them does not change it"""
    cfg, g = configuration(env, 2)
    look, tr, gr = solution(env, cfg, g)
    fields = cfg.get_fields(grad_p=True)
    if env.bool('dictionary altered'):
        fields['mine'] = cf(1.0)
        del fields['pressure']
        altered = cfg.get_fields(grad_p=True)
        check(env, altered, DEFAULT + ['grad_p'], look, tr, gr, 2)
        fields = altered
    declined = env.choose('declined before', ['nothing', 'p', 'rho', 'grad_p'])
    if declined != 'nothing':
        cfg.get_fields(**{declined: False, 'grad_u': True})
    again = cfg.get_fields()
    check(env, again, DEFAULT, look, tr, gr, 2)
    for k in DEFAULT:
        compare(env, f"{k} read twice", getattr(again, k), look, tr[k], 2)
    look, tr, gr = solution(env, cfg, g, '_2')
    for k in DEFAULT:
        compare(env, f"{k} of the new solution", getattr(fields, k), look, tr[k], 2)
    check(env, fields, DEFAULT + ['grad_p'], look, tr, gr, 2)
    check(env, cfg.get_fields(grad_T=True), DEFAULT + ['grad_T'], look, tr, gr, 2)


def reinitialised(env):
    """after changes and another initialisation the fields are those of the new solution"""
    cfg, g = configuration(env, 2)
    solution(env, cfg, g, '_0')
    ask = env.choose('quantities', [{}, {'grad_p': True}, {'rho_E': True}])
    cfg.get_fields(**ask)
    cfg.get_fields(grad_u=True)
    change = env.choose('change', ['nothing', 'order', 'gas', 'viscous', 'equations'])
    if change == 'order':
        cfg.fem.order = 2
    elif change == 'equations':
        cfg.fem = 'conservative'
        cfg.fem.order = 1
    elif change == 'gas':
        g = env.real('gamma_new', above=1)
        cfg.equation_of_state = 'ideal'
        cfg.equation_of_state.heat_capacity_ratio = g
    elif change == 'viscous':
        cfg.dynamic_viscosity = 'constant'
        cfg.mach_number, cfg.reynolds_number, cfg.prandtl_number = .3, 100, .7
        cfg.fem.mixed_method = 'strain_heat'
    cfg.initialize()
    look, tr, gr = solution(env, cfg, g, '_1')
    if change == 'viscous':
        q = [env.real(f"q{i}") for i in range(5)]
        assign(env, cfg, [[(v if k == look else v + 1, [0, 0]) for v in q] for k in range(2)], cfg.gfus['Q'])
        fields = cfg.get_fields(**{**ask, 'grad_p': False} if 'grad_p' in ask else ask)
        keys = [k for k in ask if k != 'grad_p']
        check(env, fields, DEFAULT + keys, look, tr, gr, 2)
    else:
        check(env, cfg.get_fields(**ask), DEFAULT + list(ask), look, tr, gr, 2)


class Heard(logging.Handler):
    def __init__(self):
        super().__init__()
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def unknown(env):
    """what is not available is reported and left out"""
    cfg, g = configuration(env, 2)
    look, tr, gr = solution(env, cfg, g)
    name = env.choose('quantity', UNKNOWN)
    with_known = env.bool('with a known one')
    heard, log = Heard(), logging.getLogger('dream')
    before, level = logging.root.manager.disable, log.level
    logging.disable(logging.NOTSET)
    log.setLevel(logging.INFO)
    own, log.handlers = log.handlers, [heard]
    try:
        fields = cfg.get_fields(**{name: True}, **({'c': True} if with_known else {}))
    finally:
        log.handlers = own
        log.setLevel(level)
        logging.disable(before)
    check(env, fields, DEFAULT + (['c'] if with_known else []), look, tr, gr, 2)
    env.holds('reported', any(name in t for t in heard.text))
    env.holds('nothing else is reported', not any(w in ('c', 'speed_of_sound', 'p', 'rho') for t in heard.text for w in t.split()))


def viscous(env):
    cfg, g = configuration(env, 2, True)
    look, tr, gr = solution(env, cfg, g)
    q = [env.real(f"q{i}") for i in range(5)]
    comps = [[(v if k == look else v + 1, [0, 0]) for v in q] for k in range(2)]
    assign(env, cfg, comps, cfg.gfus['Q'])
    extra = env.choose('quantity', ['eps', 'grad_T', 'grad_u', 'rho_E'])
    fields = cfg.get_fields(**{extra: True})
    if extra == 'eps':
        compare(env, 'strain', fields.eps, look, [q[0], q[1], q[1], q[2]], 2)
    elif extra == 'grad_T':
        compare(env, 'temperature gradient', fields.grad_T, look, q[3:], 2)
    elif extra == 'grad_u':
        compare(env, 'velocity gradient', fields.grad_u, look, gr['u'], 2)
    else:
        compare(env, 'energy', fields.rho_E, look, tr['rho_E'], 2)
    for k in DEFAULT:
        compare(env, k, getattr(fields, k), look, tr[k], 2)


def initial(env):
    """reading the fields right after initialising gives the initial state back"""
    g = gas(env)
    mesh = env.strip(materials=('one', 'two'))
    cfg = solver(env, 2, g, mesh=mesh)
    cfg.fem.order = env.choose('order', [0, 1])
    from dream.compressible import Initial
    a = state(env, 2, g)
    given = env.choose('given', [('rho', 'u', 'p'), ('rho', 'u', 'T'), ('rho', 'rho_u', 'rho_E'), ('rho', 'u', 'E')])
    kind = env.choose('domains', ['same', 'different'])
    if kind == 'same':
        b = a
        cfg.dcs['one|two'] = Initial(fields=fields(a, given))
    else:
        b = truth(env.real('rho_b', positive=True), env.real('c_b', positive=True), [env.real('u0_b'), 0], g)
        cfg.dcs['one'] = Initial(fields=fields(a, given))
        cfg.dcs['two'] = Initial(fields=fields(b, ('rho', 'u', 'p')))
    cfg.initialize()
    got = cfg.get_fields(rho_E=True)
    for k, tr in ((0, a), (1, b)):
        for key in DEFAULT + ['rho_E']:
            compare(env, f"{key} on domain {k}", getattr(got, key), k, tr[key], 2)


def scenarios(thorough):
    G = [f"grad_{k}" for k in GRADIENT]
    out = [('defaults and states', quantities(2, DEFAULT + STATE)), ('scalar gradients', quantities(2, ['grad_rho', 'grad_p', 'grad_T'])),
           ('energy gradients', quantities(2, ['grad_rho_E', 'grad_rho_Ek', 'grad_rho_Ei'])), ('vector gradients', quantities(2, ['grad_u', 'grad_rho_u'])),
           ('several', several), ('live', live), ('reinitialised', reinitialised), ('unknown', unknown), ('viscous', viscous), ('initial', initial),
           ('states 3d', quantities(3, DEFAULT + STATE))]
    if thorough:
        out += [('gradients 3d', quantities(3, G))]
    return out
