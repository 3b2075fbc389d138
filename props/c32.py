"""C32 expressions, forms and clocks follow the parameters."""
from props.common import *
from props.c02 import GRADS
from props.live import follows, thermodynamics, convection, diffusion, farfield, stabilisation, with_sound

META = {
    'bounds': 'heat capacity ratio, Mach, Reynolds and Prandtl number and time step, each set to any admissible value after derived quantities, fluxes, '
              'Jacobians, far-field states and complete weak forms were built with others; 2 space dimensions; all Riemann solvers, schemes, viscosity '
              'laws, scalings and boundary and sponge terms in the combinations listed in the check; any state, gradient and test value at one point of '
              'a cell, an inner facet and a boundary',
    'outside': ['parameters written into functions the user builds', 'options that are no parameters (orders, names, measured viscosity)'],
}

VARIANTS = {        # riemann, viscosity, scaling, scheme, condition
    'lax_friedrich farfield': ('lax_friedrich', 'inviscid', 'acoustic', 'implicit_euler', 'farfield'),
    'roe outflow': ('roe', 'inviscid', 'aerodynamic', 'bdf2', 'outflow'),
    'upwind wall': ('upwind', 'inviscid', 'aeroacoustic', 'implicit_euler', 'inviscid_wall'),
    'viscous grcbc': ('lax_friedrich', 'constant', 'acoustic', 'bdf2', 'grcbc'),
    'viscous nscbc': ('lax_friedrich', 'constant', 'aeroacoustic', 'implicit_euler', 'nscbc'),
    'viscous isothermal': ('hll', 'constant', 'aerodynamic', 'implicit_euler', 'isothermal_wall'),
    'sutherland adiabatic': ('lax_friedrich', 'sutherland', 'acoustic', 'bdf2', 'adiabatic_wall'),
    'hllem symmetry': ('hllem', 'inviscid', 'acoustic', 'bdf2', 'symmetry'),
    'pseudo roe grcbc': ('roe', 'inviscid', 'aeroacoustic', 'implicit_euler', 'grcbc'),
}


def configured(env, variant, mesh):
    import ngsolve as ngs
    import dream.compressible as D
    import dream.compressible.config as C
    from dream.mesh import SpongeLayer
    riemann, viscosity, scaling, scheme, condition = VARIANTS[variant]
    cfg = solver(env, 2, mesh=mesh)
    cfg.scaling = scaling
    cfg.dynamic_viscosity = viscosity
    cfg.riemann_solver = riemann
    if viscosity != 'inviscid':
        cfg.fem.mixed_method = 'strain_heat'
    cfg.time = 'pseudo' if variant.startswith('pseudo') else 'transient'
    cfg.time.scheme = scheme
    target = lambda: D.flowfields(rho=1.0, u=ngs.CF((0.5, 0.25)), p=0.75)
    make = {'farfield': lambda: D.FarField(fields=target()), 'outflow': lambda: D.Outflow(fields=0.75), 'grcbc': lambda: C.GRCBC(fields=target(),
            is_viscous_fluxes=viscosity != 'inviscid', tangential_relaxation=0.5), 'nscbc': lambda: C.NSCBC(fields=target(), target='outflow', length=2),
            'isothermal_wall': lambda: D.IsothermalWall(fields=0.5)}.get(condition, lambda: condition)
    cfg.bcs['left'] = make()
    cfg.dcs['sponge'] = SpongeLayer(function=ngs.CF(2.0), target_state=target())
    return cfg


def forms(variant):
    def fn(env):
        """forms built before the parameters are set have the integrands of forms built afterwards"""
        import ngsolve as ngs
        from vlib.forms import build
        viscous = VARIANTS[variant][1] != 'inviscid'
        new = [(GAMMA, env.real('gamma', above=1)), ('mach_number', env.real('M', positive=True)), ('time.timer.step', env.real('dt', positive=True))]
        if viscous:
            new += [('reynolds_number', env.real('Re', positive=True)), ('prandtl_number', env.real('Pr', positive=True))]
        mesh = env.strip(materials=('inner', 'sponge'))
        early, late = configured(env, variant, mesh), configured(env, variant, mesh)
        for path, v in new:
            later(early, path, v)
            later(late, path, v)
        a = build(env, early)
        from vlib.forms import settled
        settled(late)
        b = build(env, late)
        n = env.unit_vector('n')
        rho, rhoh, E, Eh = [env.real(k, positive=True) for k in ('rho', 'rho_hat', 'Ei', 'Ei_hat')]
        u, uh = vec(env, 'u', 2), vec(env, 'u_hat', 2)
        q = [rho] + [rho * x for x in u] + [rho * E + rho * dot(u, u) / 2]
        qh = [rhoh] + [rhoh * x for x in uh] + [rhoh * Eh + rhoh * dot(uh, uh) / 2]
        v, vh, gv = vec(env, 'v', 4), vec(env, 'vh', 4), vec(env, 'gv', 8)
        old = {}
        site = env.choose('site', ['cell', 'layer', 'facet', 'boundary', 'other'])
        eg = vec(env, 'eg', 5) if viscous else None

        def total(f):
            cfg = f.cfg
            (U, V), (Uh, Vh) = cfg.TnT['U'], cfg.TnT['Uhat']
            b = {U: q, V: v, Uh: qh, Vh: vh, cfg.mesh.normal: n}
            if site == 'boundary':
                b.update({cfg.mesh.tangential: [-n[1], n[0]], ngs.grad(U): [.5, 1, -1, 2, .25, .75, 1.5, 1], ngs.grad(Uh): [1, .5, .75, -1, 2, 1.5, .25, 1.25]})
            if site in ('cell', 'layer'):
                b[ngs.grad(V)] = gv
            if viscous:
                Q, P = cfg.TnT['Q']
                b.update({Q: eg, P: [1, 2, -1, .5, .75]})
                if site in ('cell', 'layer', 'boundary'):
                    b.update({ngs.grad(Q): [.5, 1, -.25, 2, -1, 1, .25, 1.5, 1, .75], ngs.grad(P): [1, .5, .75, 2, 1.5, 1, -.25, 1, .25, 1]})
            for name in cfg.time.scheme.gfus:
                for i, level in enumerate(cfg.time.scheme.time_levels[:-1]):
                    b[cfg.time.scheme.gfus[name][level]] = [1 + i, .5, .25, 2 + i]
            where = {'cell': ('cell', 'inner', 0), 'layer': ('cell', 'sponge', 1), 'facet': ('facet', env.facet('inner'), 0),
                     'boundary': ('boundary', 'left'), 'other': ('facet', env.facet('left'), 0)}[site]
            return f.total(where, b)
        env.eq('integrands', total(a), total(b))
    return fn


def equations(name, gradient=False):
    def fn(env):
        """each equation, from any subset of quantities, follows the heat capacity ratio"""
        import ngsolve as ngs
        cfg = solver(env, 2)
        vals = {k: vec(env, k, 2) if k in ('u', 'rho_u') else env.real(k, positive=True) for k in NAMES}
        args = [lazy_fields(env, {k: cf(v) for k, v in vals.items()})]
        if gradient:
            args.append(lazy_fields(env, {f"grad_{k}": ngs.CF(tuple(.5 * (i + 1) for i in range(4)), dims=(2, 2)) if k in ('u', 'rho_u') else
                                          ngs.CF((vals[k], .25)) for k in NAMES}, 'dhas_'))
        early = env.refused(lambda: getattr(cfg, name)(*args))
        cfg.equation_of_state.heat_capacity_ratio = env.real('gamma', above=1)
        late = env.refused(lambda: getattr(cfg, name)(*args))
        env.holds('what can be determined does not depend on parameters', (early is None) == (late is None))
        if early is not None:
            env.eq(name, env.value(early), env.value(late))
    return fn


def waves(env, cfg, U):
    W = with_sound(cfg, U)
    n = (.6, .8)
    out = {'L': cfg.primitive_from_characteristic(W, n), 'Linv': cfg.characteristic_from_primitive(W, n),
           'Pinv': cfg.characteristic_from_conservative(W, n), 'Ax': cfg.primitive_convective_jacobian_x(W)}
    for kind in ('incoming', 'outgoing'):
        out[f"velocities {kind}"] = cfg.characteristic_velocities(W, n, kind)
        out[f"identity {kind}"] = cfg.get_conservative_convective_identity(W, n, kind)
        out[f"jacobian {kind}"] = cfg.get_conservative_convective_jacobian(W, n, kind)
    return out


def forces(env, cfg, U):
    import ngsolve as ngs
    from dream.compressible import flowfields
    ref = flowfields(rho=1.0, u=(1.0, 0.5), T=2.0)
    W = flowfields(rho=U.rho, u=U.u, p=U.p, T=cfg.temperature(U))
    return {'pressure coefficient': cfg.pressure_coefficient(flowfields(rho=U.rho, u=U.u, T=U.p), ref), 'stress': cfg.stress_tensor(
        W, flowfields(grad_u=ngs.CF((.5, 1, -2, .25), dims=(2, 2)))), 'isentropic density': cfg.isentropic_density(
        flowfields(T=U.p), flowfields(rho=1.0, T=U.rho)), 'isentropic density from pressure': cfg.isentropic_density(
        flowfields(p=U.p), flowfields(rho=1.0, p=U.rho)), 'local Reynolds': cfg.get_local_reynolds_number(W)}


def read_fields(env):
    """fields read from a solver follow the parameters like those read afterwards"""
    import ngsolve as ngs
    from props.c31 import assign, place
    mesh = env.strip()
    asked = {k: True for k in ('E', 'c', 'Ek', 'M', 'H', 'grad_T', 'grad_p', 'grad_u', 'rho_Ei', 'rho_E')}

    def configured():
        cfg = solver(env, 2, mesh=mesh)
        cfg.fem.order = 1
        cfg.initialize()
        return cfg
    g = env.real('gamma', above=1)
    rho, E, u = env.real('rho', positive=True), env.real('Ei', positive=True), vec(env, 'u', 2)
    U = [rho] + [rho * x for x in u] + [rho * E + rho * dot(u, u) / 2]
    slopes = [vec(env, f"s{i}", 2) for i in range(4)]
    early, late = configured(), configured()
    later(early, GAMMA, g)
    later(late, GAMMA, g)
    from vlib.forms import settled
    assign(env, early, [list(zip(U, slopes))], early.gfus['U'])
    a = early.get_fields(**asked)
    settled(early)
    settled(late)
    assign(env, late, [list(zip(U, slopes))], late.gfus['U'])
    b = late.get_fields(**asked)
    env.holds('same fields', set(a) == set(b))
    for k in a:
        env.eq(k, *[env.value(f[k], None, place(0, 2), region=0, element=0) for f in (a, b)])


def clock(env):
    """the clock of a configuration handed out before follows step and interval"""
    from dream.compressible import CompressibleFlowSolver
    cfg = CompressibleFlowSolver(env.strip())
    cfg.time = 'transient'
    timer = cfg.time.timer
    a, A = env.decimal('start', 1)
    h, H = env.decimal('step', 1)
    env.assume(0 < H)
    n = env.choose('steps', [1, 2, 3])
    expression = 2 * timer.t
    cfg.time.timer.interval = (a, a + (n + .5) * h)
    cfg.time.timer.step = h
    k = 0
    for t in timer():
        k += 1
        env.same_number('instant', t, A + k * H)
        off = env.value(expression)[0] - 2 * (A + k * H)
        env.le('functions of time', off, 1e-6 * (1 + A + k * H))
        env.le('functions of time', -off, 1e-6 * (1 + A + k * H))
    env.holds('instants', k == n)


def scenarios(thorough):
    S = ['aerodynamic', 'acoustic', 'aeroacoustic']
    R = ['lax_friedrich', 'roe', 'hll', 'hllem', 'upwind']
    return [('thermodynamics', follows(thermodynamics, names=('gamma',))), ('convection', follows(convection, names=('gamma',))),
            ('waves', follows(waves, names=('gamma',))),
            ('diffusion', follows(diffusion, scaling=S, viscosity=['constant', 'sutherland'])),
            ('forces', follows(forces, scaling=S, viscosity=['constant', 'sutherland'])),
            ('far field', follows(farfield, scaling=S, viscosity='constant', names=('gamma', 'M', 'Re'))),
            ('stabilisation', follows(stabilisation, riemann=R, names=('gamma',))), ('fields', read_fields), ('clock', clock)] \
        + [(f"forms {v}", forms(v)) for v in VARIANTS] \
        + [(NAMES[k], equations(NAMES[k])) for k in NAMES] + [(f"gradient of {GRADS[k]}", equations(f"{GRADS[k]}_gradient", True)) for k in GRADS]
