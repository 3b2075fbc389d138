"""C12 scalings: one physical flow, the configured dimensionless numbers."""
from props.common import *

META = {
    'bounds': '2 and 3 space dimensions; all Mach, Reynolds and Prandtl numbers>0, gamma>1; all flow directions (any non-zero vector); all '
              'reference values; every order in which scaling, gas, viscosity and numbers are set; three scalings under each of their names',
    'outside': ['Mach number zero (refused in aerodynamic scaling, which is checked)', 'reference values are not checked to be consistent with each other'],
}
MAGNITUDE = {'aerodynamic': lambda M: 1, 'acoustic': lambda M: M, 'aeroacoustic': lambda M: M / (1 + M)}
SOUND = {'aerodynamic': lambda M: 1 / M, 'acoustic': lambda M: 1, 'aeroacoustic': lambda M: 1 / (1 + M)}


def far_field(dim):
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        M = env.real('M', positive=True)
        name = env.choose('scaling', list(MAGNITUDE))
        if env.bool('mach_first'):
            cfg.mach_number = M
            cfg.scaling = name
        else:
            cfg.scaling = name
            cfg.mach_number = M
        d = env.unit_vector('d', dim)
        length = env.real('length', positive=True)
        U = cfg.get_farfield_state(tuple(length * x for x in d))
        rho, c, T, p = (env.num(U[k]) for k in ('density', 'speed_of_sound', 'temperature', 'pressure'))
        u = env.value(U.u)
        env.eq('flow in the given direction with the Mach number', u, [M * c * x for x in d])
        env.eq('ideal gas: pressure', p, rho * c * c / g)
        env.eq('ideal gas: temperature', T, c * c / (g - 1))
        env.eq('inner energy', env.num(U.rho_Ei), p / (g - 1))
        env.eq('kinetic energy', env.num(U.rho_Ek), rho * dot(u, u) / 2)
        env.eq('energy', env.num(U.rho_E), p / (g - 1) + rho * dot(u, u) / 2)
        env.eq('reference density', rho, 1)
        env.eq('reference velocity', u, [MAGNITUDE[name](M) * x for x in d])
        env.eq('reference speed of sound', c, SOUND[name](M))
        env.eq('local Mach number', env.num(cfg.get_local_mach_number(U)), M)
    return run


def same_flow(env):
    """ratios of far-field quantities that have no dimension are the same in all scalings"""
    g = gas(env)
    cfg = solver(env, 2, g)
    M = env.real('M', positive=True)
    cfg.mach_number = M
    d = env.unit_vector('d')
    ratios = []
    for name in MAGNITUDE:
        cfg.scaling = name
        U = cfg.get_farfield_state(tuple(d))
        rho, c, T, p, E = (env.num(U[k]) for k in ('density', 'speed_of_sound', 'temperature', 'pressure', 'energy'))
        u = env.value(U.u)
        ratios.append([p / (rho * c * c), T / (c * c), E / p] + [x / c for x in u])
    for r in ratios[1:]:
        env.eq('same physical flow', r, ratios[0])


def reynolds(dim):
    def run(env):
        """the Reynolds number of the far field, with viscosity one there, is the configured one"""
        g = gas(env)
        cfg = solver(env, dim, g)
        M, Re, Pr = env.real('M', positive=True), env.real('Re', positive=True), env.real('Pr', positive=True)
        cfg.dynamic_viscosity = env.choose('law', ['constant', 'sutherland'])
        cfg.scaling = env.choose('scaling', list(MAGNITUDE))
        cfg.mach_number, cfg.reynolds_number, cfg.prandtl_number = M, Re, Pr
        U = cfg.get_farfield_state(tuple(env.unit_vector('d', dim)))
        ref = env.num(cfg.scaling.reference_reynolds_number)
        rho, u = env.num(U.rho), env.value(U.u)
        speed = MAGNITUDE[cfg.scaling.name](M)
        env.eq('far-field speed', dot(u, u), speed * speed)
        env.eq('Reynolds number', rho * speed * ref, Re)
        # density times speed over the viscosity in front of the strain rate
        env.eq('viscosity of the far field', env.num(cf(cfg.viscosity(U))), 1)
        env.eq('local Reynolds number', env.num(cfg.get_local_reynolds_number(U)) * ref, Re)
        # later changes are followed
        Re2, M2 = env.real('Re2', positive=True), env.real('M2', positive=True)
        scaled = cfg.scaling.reference_reynolds_number
        cfg.reynolds_number = Re2
        env.eq('follows the Reynolds number', env.num(scaled) * speed, Re2)
        cfg.mach_number = M2
        env.eq('follows the Mach number', env.num(cfg.scaling.reference_reynolds_number) * MAGNITUDE[cfg.scaling.name](M2), Re2)
    return run


def dimensions(env):
    """dimensional values: each quantity times its reference value, nothing else changed"""
    from dream.compressible import flowfields
    import ngsolve as ngs
    g = gas(env)
    cfg = solver(env, 2, g)
    cfg.scaling = env.choose('scaling', list(MAGNITUDE))
    quantities = ['density', 'velocity', 'momentum', 'speed_of_sound', 'temperature', 'pressure']
    defaults = {'density': 1.293, 'velocity': 1, 'speed_of_sound': 343, 'temperature': 293.15, 'pressure': 101325}
    given = {}
    for q in quantities:
        if env.bool(f"given_{q}"):
            given[q] = env.real(f"ref_{q}", positive=True)
    if given:
        cfg.scaling.dimensionful_values = dict(given)
    ref = dict(defaults, **given)
    tr = state(env, 2, g)
    names = {'density': 'rho', 'velocity': 'u', 'momentum': 'rho_u', 'speed_of_sound': 'c', 'temperature': 'T', 'pressure': 'p', 'energy': 'rho_E'}
    U = flowfields(**{k: cf(tr[k]) for k in names.values()})
    D = cfg.get_dimensionful_state(U)
    env.holds('quantities with a reference value', set(D) == set(ref))
    for q in D:
        v = tr[names[q]]
        env.eq('dimensional value', env.value(D[q]), [ref[q] * x for x in v] if isinstance(v, list) else ref[q] * v)
    env.eq('the state itself is unchanged', env.value(U.rho), tr['rho'])


def refusals(env):
    g = gas(env)
    cfg = solver(env, 2, g)
    cfg.dynamic_viscosity = 'constant'
    bad = env.real('bad')
    env.assume(bad <= 0)

    def assign(name):
        return lambda: setattr(cfg, name, bad)
    env.raises('Reynolds number > 0', ValueError, assign('reynolds_number'))
    env.raises('Prandtl number > 0', ValueError, assign('prandtl_number'))
    M = env.real('M')
    if M < 0:
        env.raises('Mach number >= 0', ValueError, lambda: setattr(cfg, 'mach_number', M))
    else:
        cfg.mach_number = M
        cfg.scaling = 'aerodynamic'
        if M > 0:
            env.eq('accepted', env.num(cf(cfg.scaling.speed_of_sound(cfg.mach_number))), 1 / M)
        else:
            env.raises('aerodynamic scaling needs motion', ValueError, lambda: cfg.get_farfield_state((1, 0)))
    k = env.choose('size', [1, 3])
    env.holds('accepted direction', True)
    cfg.scaling = 'acoustic'
    env.raises('direction of another dimension', ValueError, lambda: cfg.get_farfield_state(tuple([1] * k)))


def scenarios(thorough):
    from props.live import follows, farfield
    out = [('follows', follows(farfield, scaling=['aerodynamic', 'acoustic', 'aeroacoustic'], viscosity='constant', names=('gamma', 'M', 'Re'))), ('same flow', same_flow), ('dimensions', dimensions), ('refusals', refusals)]
    for dim in (2, 3):
        out += [(f"far field {dim}d", far_field(dim)), (f"reynolds {dim}d", reynolds(dim))]
    return out
