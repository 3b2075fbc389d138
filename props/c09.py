"""C09 walls, symmetry planes, outflows: the trace equation at a boundary."""
from props.common import *

META = {
    'bounds': '2 space dimensions (inviscid wall, symmetry, outflow and isothermal wall also 3); all interior and trace states with density>0, '
              'speed of sound>0, any velocity, gamma>1; all unit normals and test values; prescribed pressure or temperature of any positive '
              'value, given directly, by fields or by another complete set of fields; constant viscosity with all Reynolds and Prandtl '
              'numbers; several conditions on different regions at once',
    'outside': ['adiabatic walls in 3 dimensions (the mixed method is refused there)'],
}


def setup(env, dim, viscous=False):
    g = gas(env)
    if dim == 2:
        mesh = env.strip(materials=('inner', 'inner'))
    else:
        mesh = env.cube()
    cfg = solver(env, dim, mesh=mesh)
    later(cfg, GAMMA, g)
    if viscous:
        cfg.dynamic_viscosity = 'constant'
        cfg.fem.mixed_method = 'strain_heat'
        later(cfg, 'reynolds_number', env.real('Re', positive=True))
        later(cfg, 'prandtl_number', env.real('Pr', positive=True))
        cfg.mach_number = 0.5
        cfg.scaling = 'acoustic'
    regions = ['left', 'right'] if dim == 2 else list(cfg.mesh.GetBoundaries())[:2]
    return g, cfg, regions


def balance(f, cfg, region, q, qh, vh, n, extra=None):
    (U, V), (Uh, Vh) = cfg.TnT['U'], cfg.TnT['Uhat']
    b = {U: q, Uh: qh, Vh: vh, V: [0] * len(q), cfg.mesh.normal: n}
    b.update(extra or {})
    return f.total(('boundary', region), b)


def prescribed(env, cls, name, tr):
    """a condition prescribing one quantity, in any of the accepted ways"""
    from dream.compressible import flowfields
    how = env.choose('how', ['scalar', 'field', 'fields', 'state'])
    if how == 'scalar':
        return cls(fields=tr[name])
    if how == 'field':
        return cls(fields={name: tr[name]})
    if how == 'fields':
        return cls(fields=flowfields(rho=tr['rho'], u=cf(tr['u']), p=tr['p'], T=tr['T']))
    return cls(fields=flowfields(rho=tr['rho'], u=cf(tr['u']), **({'T': tr['T']} if name == 'p' else {'p': tr['p']})))


def wall_like(dim):
    def run(env):
        from vlib.forms import build
        from dream.compressible import Outflow, IsothermalWall
        g, cfg, (one, two) = setup(env, dim)
        n = env.unit_vector('n', dim)
        tr, bc = state(env, dim, g), state(env, dim, g, '_bc')
        kind = env.choose('kind', ['inviscid_wall', 'symmetry', 'outflow', 'isothermal_wall'])
        if kind == 'outflow':
            cfg.bcs[one] = prescribed(env, Outflow, 'p', bc)
        elif kind == 'isothermal_wall':
            cfg.bcs[one] = prescribed(env, IsothermalWall, 'T', bc)
        else:
            cfg.bcs[one] = kind
        other = env.choose('other', ['none', 'inviscid_wall', 'periodic'])
        if other != 'none':
            cfg.bcs[two] = other
        f = build(env, cfg)
        q, qh, vh = conserved(tr), vec(env, 'qh', dim + 2), vec(env, 'vh', dim + 2)
        un = dot(tr['u'], n)
        slip = [tr['rho']] + [tr['rho'] * (u - un * k) for u, k in zip(tr['u'], n)] + [tr['rho_E']]
        if kind in ('inviscid_wall', 'symmetry'):
            want = slip
        elif kind == 'outflow':
            want = [tr['rho']] + tr['rho_u'] + [bc['p'] / (g - 1) + tr['rho_Ek']]
        else:
            want = [tr['rho']] + [0] * dim + [tr['rho'] * bc['T'] / g]
        env.eq('trace equation', balance(f, cfg, one, q, qh, vh, n), dot(vh, [x - y for x, y in zip(qh, want)]))
        want = {'none': None, 'inviscid_wall': slip, 'periodic': None}[other]
        env.eq('trace equation of the other region', balance(f, cfg, two, q, qh, vh, n),
               0 if want is None else dot(vh, [x - y for x, y in zip(qh, want)]))
    return run


def solution(env):
    """the trace that solves the equation has the physical property"""
    from vlib.forms import build
    from dream.compressible import Outflow, IsothermalWall
    g, cfg, (one, two) = setup(env, 2)
    n = env.unit_vector('n')
    tr, bc = state(env, 2, g), state(env, 2, g, '_bc')
    kind = env.choose('kind', ['inviscid_wall', 'symmetry', 'outflow', 'isothermal_wall'])
    cfg.bcs[one] = {'outflow': lambda: Outflow(fields=bc['p']), 'isothermal_wall': lambda: IsothermalWall(fields=bc['T'])}.get(kind, lambda: kind)()
    f = build(env, cfg)
    q = conserved(tr)
    # the equation is trace minus a state of the interior: read that state off
    rows = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
    hat = [-balance(f, cfg, one, q, [0] * 4, r, n) for r in rows]
    for i in range(4):
        env.eq('the trace is determined', balance(f, cfg, one, q, hat, rows[i], n), 0)
    p = (g - 1) * (hat[3] - (hat[1] * hat[1] + hat[2] * hat[2]) / (2 * hat[0]))
    if kind in ('inviscid_wall', 'symmetry'):
        env.eq('no flow through the wall', hat[1] * n[0] + hat[2] * n[1], 0)
        env.eq('tangential flow is free', hat[1] * n[1] - hat[2] * n[0], tr['rho_u'][0] * n[1] - tr['rho_u'][1] * n[0])
    elif kind == 'isothermal_wall':
        env.eq('no slip', hat[1:3], [0, 0])
        env.eq('temperature of the wall', g / (g - 1) * p / hat[0], bc['T'])
    else:
        env.eq('pressure of the outflow', p, bc['p'])
        env.eq('velocity is free', [hat[1] / hat[0], hat[2] / hat[0]], tr['u'])
    env.eq('density is free', hat[0], tr['rho'])


def adiabatic(env):
    """no slip, free density, no heat leaves: the energy balance is the one of the diffusive flux"""
    from vlib.forms import build
    g, cfg, (one, two) = setup(env, 2, True)
    n = env.unit_vector('n')
    tr = state(env, 2, g)
    cfg.bcs[one] = 'adiabatic_wall'
    f = build(env, cfg)
    q, qh, vh = conserved(tr), vec(env, 'qh', 4), vec(env, 'vh', 4)
    e, gT = vec(env, 'e', 3), vec(env, 'gT', 2)
    Q, P = cfg.TnT['Q']
    Re, Pr = env.num(cfg.scaling.reference_reynolds_number), env.num(cfg.prandtl_number)
    k = 1 / (Re * Pr)
    want = [qh[0] - q[0], qh[1], qh[2], k * (dot(gT, n) - (q[3] - qh[3]))]
    env.eq('trace equation', balance(f, cfg, one, q, qh, vh, n, {Q: e + gT}), dot(vh, want))


def refusals(env):
    """an adiabatic wall needs the heat flux unknown, walls need a temperature"""
    from vlib.forms import build
    from dream.compressible import Outflow, IsothermalWall
    g, cfg, (one, two) = setup(env, 2)
    kind = env.choose('kind', ['adiabatic', 'isothermal', 'outflow'])
    cfg.bcs[one] = {'adiabatic': lambda: 'adiabatic_wall', 'isothermal': IsothermalWall, 'outflow': Outflow}[kind]()
    if kind == 'adiabatic':
        env.raises('needs the mixed method', NotImplementedError, lambda: build(env, cfg))
    else:
        env.raises('needs its value', ValueError, lambda: build(env, cfg))


def scenarios(thorough):
    return [('trace 2d', wall_like(2)), ('trace 3d', wall_like(3)), ('solution', solution), ('adiabatic', adiabatic), ('refusals', refusals)]
