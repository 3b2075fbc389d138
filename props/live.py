"""Expressions handed out by a solver follow its parameters when these are set later on."""
from props.common import *


def thermodynamics(env, cfg, U):
    from dream.compressible import flowfields
    W = with_sound(cfg, U)
    out = {k: W[k] for k in W if k not in U}
    out['pressure'] = cfg.pressure(flowfields(rho=U.rho, T=U.p))
    out['density'] = cfg.density(flowfields(p=U.p, T=U.rho))
    out['density from sound'] = cfg.density(flowfields(p=U.p, c=U.rho))
    out['temperature'] = cfg.temperature(U)
    out['from energy'] = cfg.pressure(flowfields(rho_Ei=U.p))
    out['mach'] = cfg.get_local_mach_number(U)
    return out


def convection(env, cfg, U):
    W = with_sound(cfg, U)
    n = (.6, .8)
    return {'flux': cfg.get_convective_flux(W), 'jacobian x': cfg.conservative_convective_jacobian_x(W),
            'jacobian y': cfg.conservative_convective_jacobian_y(W), 'P': cfg.conservative_from_characteristic(W, n),
            'M': cfg.conservative_from_primitive(W), 'Minv': cfg.primitive_from_conservative(W)}


def with_sound(cfg, U):
    from dream.compressible import flowfields
    W = flowfields(rho=U.rho, u=U.u, p=U.p)
    for name, call in [('c', 'speed_of_sound'), ('rho_Ei', 'inner_energy'), ('Ei', 'specific_inner_energy'), ('rho_Ek', 'kinetic_energy'),
                       ('Ek', 'specific_kinetic_energy'), ('rho_E', 'energy'), ('E', 'specific_energy'), ('rho_H', 'enthalpy'),
                       ('H', 'specific_enthalpy'), ('rho_u', 'momentum')]:
        setattr(W, name, getattr(cfg, call)(W))
    return W


def diffusion(env, cfg, U):
    import ngsolve as ngs
    from dream.compressible import flowfields
    dU = flowfields(grad_u=ngs.CF((.5, 1, -2, .25), dims=(2, 2)), grad_T=ngs.CF((1, -.5)))
    W = flowfields(rho=U.rho, u=U.u, p=U.p, T=cfg.temperature(U))
    return {'viscosity': cfg.viscosity(W), 'stress': cfg.deviatoric_stress_tensor(W, dU), 'heat flux': cfg.heat_flux(W, dU),
            'flux': cfg.get_diffusive_flux(W, dU)}


def farfield(env, cfg, U):
    f = cfg.get_farfield_state((3, 4))
    return {**dict(f.items()), 'reference Reynolds': cfg.scaling.reference_reynolds_number}


def stabilisation(env, cfg, U):
    return {'stabilisation': cfg.riemann_solver.get_convective_stabilisation_matrix(with_sound(cfg, U), (.6, .8))}


def follows(what, scaling=None, viscosity='inviscid', riemann=None, names=('gamma', 'M', 'Re', 'Pr')):
    def fn(env):
        """the expression obtained before a parameter is set has the value of one obtained afterwards"""
        import ngsolve as ngs
        from dream.compressible import flowfields
        paths = {'gamma': 'equation_of_state.heat_capacity_ratio', 'M': 'mach_number', 'Re': 'reynolds_number', 'Pr': 'prandtl_number'}
        new = {'gamma': lambda: env.real('gamma', above=1), 'M': lambda: env.real('M', positive=True),
               'Re': lambda: env.real('Re', positive=True), 'Pr': lambda: env.real('Pr', positive=True)}
        new = {k: new[k]() for k in names}
        kind = env.choose('scaling', scaling) if scaling else 'acoustic'
        visc = env.choose('viscosity', viscosity) if isinstance(viscosity, list) else viscosity
        solver_ = env.choose('riemann', riemann) if riemann else None

        def setup():
            cfg = solver(env, 2)
            cfg.scaling = kind
            cfg.dynamic_viscosity = visc
            if solver_:
                cfg.riemann_solver = solver_
            return cfg

        def assign(cfg):
            for k, v in new.items():
                if k == 'gamma':
                    cfg.equation_of_state.heat_capacity_ratio = v
                else:
                    setattr(cfg, paths[k], v)
        early, late = setup(), setup()
        U = flowfields(rho=env.real('rho', positive=True), u=(env.real('ux'), env.real('uy')), p=env.real('p', positive=True))
        a = what(env, early, U)
        assign(early)
        assign(late)
        b = what(env, late, U)
        if env.holds('same quantities', list(a) == list(b)):
            for k in a:
                env.eq(f"{k} follows", env.value(a[k]) if isinstance(a[k], ngs.CF) else a[k], env.value(b[k]) if isinstance(b[k], ngs.CF) else b[k])
    return fn
