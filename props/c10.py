"""C10 the viscous flux: Navier-Stokes, dissipative, in every scaling; surface forces built from it."""
from props.common import *

META = {
    'bounds': '2 and 3 space dimensions; all states with density>0, speed of sound>0, any velocity, gamma>1; all velocity and temperature '
              'gradients; all Reynolds, Prandtl and Mach numbers>0; three scalings, constant and Sutherland viscosity with any measurement '
              'and reference temperatures>0; strain given directly or by the velocity gradient',
    'outside': ['the sign convention of drag and lift is the traction on the fluid with the outward mesh normal, as implemented'],
}
SCALINGS = {'aerodynamic': lambda M: 1, 'acoustic': lambda M: M, 'aeroacoustic': lambda M: M / (1 + M)}


def setup(env, dim, laws=('constant', 'sutherland')):
    g = gas(env)
    cfg = solver(env, dim, g)
    cfg.dynamic_viscosity = env.choose('law', laws)
    M, Re, Pr = env.real('M', positive=True), env.real('Re', positive=True), env.real('Pr', positive=True)
    name = env.choose('scaling', list(SCALINGS))
    cfg.scaling = name
    cfg.mach_number, cfg.reynolds_number, cfg.prandtl_number = M, Re, Pr
    return g, cfg, M, Re / SCALINGS[name](M), Pr


def gradient(env, dim):
    return [vec(env, f"gu{i}_", dim) for i in range(dim)], vec(env, 'gT', dim)


def strain(gu, dim):
    tr = sum_(gu[i][i] for i in range(dim))
    return [[(gu[i][j] + gu[j][i]) / 2 - (tr / 3 if i == j else 0) for j in range(dim)] for i in range(dim)]


def sum_(it):
    t = 0
    for x in it:
        t = t + x
    return t


def given_gradient(env, gu, gT, dim):
    import ngsolve as ngs
    from dream.compressible import flowfields
    flat = tuple(x for r in gu for x in r)
    if env.choose('strain', ['gradient', 'direct']) == 'gradient':
        return flowfields(grad_u=ngs.CF(flat, dims=(dim, dim)), grad_T=ngs.CF(tuple(gT)))
    e = strain(gu, dim)
    return flowfields(eps=ngs.CF(tuple(x for r in e for x in r), dims=(dim, dim)), grad_T=ngs.CF(tuple(gT)))


def viscosity(env, cfg, U):
    return env.num(cf(cfg.viscosity(U)))


def flux(dim):
    def run(env):
        g, cfg, M, Re, Pr = setup(env, dim)
        tr = state(env, dim, g)
        U = fields(tr, env.choose('given', [('rho', 'u', 'T'), ('rho', 'rho_u', 'T')]))
        gu, gT = gradient(env, dim)
        dU = given_gradient(env, gu, gT, dim)
        mu = viscosity(env, cfg, U)
        e = strain(gu, dim)
        tau = [[2 * mu / Re * x for x in r] for r in e]
        q = [-mu / (Re * Pr) * x for x in gT]
        env.eq('stress', env.value(cfg.deviatoric_stress_tensor(U, dU)), [x for r in tau for x in r])
        env.eq('heat flux', env.value(cfg.heat_flux(U, dU)), q)
        G = env.value(cfg.get_diffusive_flux(U, dU))
        env.eq('no diffusion of mass', G[:dim], [0] * dim)
        env.eq('momentum flux', G[dim:dim + dim * dim], [x for r in tau for x in r])
        env.eq('energy flux', G[dim + dim * dim:], [dot(r, tr['u']) - y for r, y in zip(tau, q)])
    return run


def dissipation(dim):
    def run(env):
        g, cfg, M, Re, Pr = setup(env, dim, ('constant',))
        tr = state(env, dim, g, vel=[0] * dim)
        U = fields(tr, ('rho', 'u', 'T'))
        gu, gT = gradient(env, dim)
        dU = given_gradient(env, gu, gT, dim)
        tau = env.value(cfg.deviatoric_stress_tensor(U, dU))
        q = env.value(cfg.heat_flux(U, dU))
        for i in range(dim):
            for j in range(i):
                env.eq('stress is symmetric', tau[i * dim + j], tau[j * dim + i])
        if dim == 3:
            env.eq('stress is free of pressure', tau[0] + tau[4] + tau[8], 0)
        env.le('stress dissipates', 0, dot(tau, [x for r in gu for x in r]))
        env.le('heat flows down the temperature gradient', dot(q, gT), 0)
    return run


def inviscid(dim):
    def run(env):
        """no viscous flux, no viscous numbers, no viscous unknowns in an inviscid configuration"""
        g = gas(env)
        cfg = solver(env, dim, g)
        cfg.dynamic_viscosity = env.choose('name', ['inviscid', 'euler'])
        cfg.scaling = env.choose('scaling', list(SCALINGS))
        U = fields(state(env, dim, g), ('rho', 'u', 'T'))
        gu, gT = gradient(env, dim)
        dU = given_gradient(env, gu, gT, dim)
        env.raises('no diffusive flux', TypeError, lambda: cfg.get_diffusive_flux(U, dU))
        env.raises('no Reynolds number', ValueError, lambda: cfg.reynolds_number)
        env.raises('no Prandtl number', ValueError, lambda: cfg.prandtl_number)
        for method in ('strain_heat', 'gradient'):
            cfg.fem.mixed_method = method
            env.raises('no mixed unknowns', TypeError, lambda: cfg.initialize_finite_element_spaces())
        cfg.fem.mixed_method = 'inactive'
        cfg.initialize_finite_element_spaces()
        env.holds('only the conservative unknowns', list(cfg.spaces) == ['U', 'Uhat'])
        cfg.dynamic_viscosity = 'constant'
        env.raises('viscous flow needs mixed unknowns', TypeError, lambda: cfg.initialize_finite_element_spaces())
    return run


def forces(dim):
    def run(env):
        """pressure coefficient, drag and lift: traction over the dynamic pressure of the reference state"""
        g, cfg, M, Re, Pr = setup(env, dim, ('constant', 'inviscid'))
        viscous = not cfg.dynamic_viscosity.is_inviscid
        tr, ref = state(env, dim, g), state(env, dim, g, '_ref')
        env.assume(dot(ref['u'], ref['u']) > 0)
        U = fields(tr, ('rho', 'u', 'p', 'T'))
        Uref = fields(ref, env.choose('reference', [('rho', 'u', 'p'), ('rho', 'rho_u', 'T', 'p')]))
        n = env.unit_vector('n', dim)
        d = env.unit_vector('d', dim)
        length = env.real('length', positive=True)
        gu, gT = gradient(env, dim)
        dU = given_gradient(env, gu, gT, dim) if viscous else None
        sigma = [[-tr['p'] if i == j else 0 for j in range(dim)] for i in range(dim)]
        if viscous:
            sigma = [[x + 2 / Re * y for x, y in zip(r, s)] for r, s in zip(sigma, strain(gu, dim))]
        env.eq('stress tensor', env.value(cfg.stress_tensor(U, dU)), [x for r in sigma for x in r])
        qinf = ref['rho_Ek']
        env.eq('pressure coefficient', env.value(cfg.pressure_coefficient(U, Uref)), (tr['p'] - ref['p']) / qinf)
        for f in (cfg.drag_coefficient, cfg.lift_coefficient):
            got = env.num(f(U, dU, Uref, tuple(length * x for x in d)), {cfg.mesh.normal: n})
            env.eq('force coefficient', got, dot([dot(r, n) for r in sigma], d) / qinf)
    return run


def scenarios(thorough):
    from props.live import follows, diffusion
    out = [('follows', follows(diffusion, scaling=['aerodynamic', 'acoustic', 'aeroacoustic'], viscosity=['constant', 'sutherland']))]
    for dim in (2, 3):
        out += [(f"flux {dim}d", flux(dim)), (f"dissipation {dim}d", dissipation(dim)), (f"inviscid {dim}d", inviscid(dim)),
                (f"forces {dim}d", forces(dim))]
    return out
