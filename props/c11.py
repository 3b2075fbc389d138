"""C11 the strain-heat unknowns are the flow gradients, and what is computed from them equals what true gradients give."""
from props.common import *
from props.c08 import waves_of, GIVEN
from props.c10 import strain, sum_

META = {
    'bounds': '2 space dimensions on a mesh of two cells; all states with density>0, speed of sound>0, any velocity, gamma>1; all velocity and '
              'temperature gradients, all values and gradients of the unknowns and test functions, all unit normals; three scalings with all '
              'Mach, Reynolds and Prandtl numbers>0; every boundary assignment; every characteristic condition, target and time scheme',
    'outside': ['3 space dimensions (refused by the code, which is checked)', 'viscosity varying along the boundary in the viscous terms of '
                'characteristic conditions', 'the quadrature of the assembled integrals'],
}


def setup(env, names=('none', 'inviscid_wall', 'periodic'), scalings=('aerodynamic', 'acoustic', 'aeroacoustic')):
    g = gas(env)
    mesh = env.strip(materials=('inner', 'inner'))
    cfg = solver(env, 2, mesh=mesh)
    later(cfg, GAMMA, g)
    cfg.dynamic_viscosity = 'constant'
    cfg.fem.mixed_method = 'strain_heat'
    M, Re, Pr = env.real('M', positive=True), env.real('Re', positive=True), env.real('Pr', positive=True)
    cfg.scaling = env.choose('scaling', scalings)
    for path, value in [('mach_number', M), ('reynolds_number', Re), ('prandtl_number', Pr)]:
        later(cfg, path, value)
    for b in ('left', 'right'):
        k = env.choose(f"bc_{b}", names) if names else 'none'
        if k != 'none':
            cfg.bcs[b] = k
    return g, cfg


def sym2(e):
    return [[e[0], e[1]], [e[1], e[2]]]


def dev(z):
    t = (z[0][0] + z[1][1]) / 3
    return [[z[0][0] - t, z[0][1]], [z[1][0], z[1][1] - t]]


def mixed_form(env):
    """the auxiliary equations, integrated by parts, say strain = dev sym grad u and heat unknown = grad T"""
    import ngsolve as ngs
    from vlib.forms import build
    g, cfg = setup(env)
    f = build(env, cfg)
    (U, V), (Uh, Vh), (Q, P) = cfg.TnT['U'], cfg.TnT['Uhat'], cfg.TnT['Q']
    tr, hat = state(env, 2, g), state(env, 2, g, '_hat')
    n = env.unit_vector('n')
    e, gT, z, xi = vec(env, 'e', 3), vec(env, 'gT', 2), vec(env, 'z', 3), vec(env, 'xi', 2)
    gz = vec(env, 'gz', 10)
    b = {U: conserved(tr), Uh: conserved(hat), Q: e + gT, P: z + xi, ngs.grad(P): gz, V: [0] * 4, Vh: [0] * 4, ngs.grad(V): [0] * 8, cfg.mesh.normal: n}
    # derivative of the test strain in x and y, and the divergence of its deviator
    dz = [dev(sym2([gz[2 * i + d] for i in range(3)])) for d in (0, 1)]
    div = [dz[0][i][0] + dz[1][i][1] for i in (0, 1)]
    E, Z = sym2(e), sym2(z)
    cell = sum_(E[i][j] * Z[i][j] for i in (0, 1) for j in (0, 1)) + dot(tr['u'], div) + dot(gT, xi) + tr['T'] * (gz[6] + gz[9])
    env.eq('auxiliary equation in a cell', f.total(('cell', 'inner', 0), b, ['mixed']), cell)
    for name, el in (('inner', 0), ('inner', 1), ('left', 0), ('right', 1), ('bottom', 0)):
        want = -dot(hat['u'], [dot(r, n) for r in dev(Z)]) - hat['T'] * dot(xi, n)
        env.eq('auxiliary equation on a facet', f.total(('facet', env.facet(name), el), b, ['mixed']), want)


def exact(env):
    """for an exact linear flow the weak auxiliary equation holds at every point for every test function"""
    import ngsolve as ngs
    from vlib.forms import build
    g, cfg = setup(env, None)
    f = build(env, cfg)
    (U, V), (Uh, Vh), (Q, P) = cfg.TnT['U'], cfg.TnT['Uhat'], cfg.TnT['Q']
    rho, c = env.real('rho', positive=True), env.real('c', positive=True)
    u, gu, gT = vec(env, 'u', 2), [vec(env, 'gu0', 2), vec(env, 'gu1', 2)], vec(env, 'gT', 2)
    z, gz = vec(env, 'z', 5), vec(env, 'gz', 10)
    e = strain(gu, 2)
    q = [e[0][0], e[0][1], e[1][1]] + gT
    base = truth(rho, c, u, g)

    def trace(vel, test, normal):
        b = {U: conserved(base), Uh: conserved(truth(rho, c, vel, g)), Q: q, P: test, ngs.grad(P): gz, V: [0] * 4, Vh: [0] * 4, cfg.mesh.normal: normal}
        return f.total(('facet', env.facet('inner'), 0), b, ['mixed'])
    cell = f.total(('cell', 'inner', 0), {U: conserved(base), Uh: conserved(base), Q: q, P: z, ngs.grad(P): gz, V: [0] * 4, Vh: [0] * 4}, ['mixed'])
    # divergence of the facet integrand: it is linear in the test value and affine in the velocity; temperature enters with T and grad T
    div = 0
    for d in (0, 1):
        nd = [1 - d, d]
        dtest = [gz[2 * i + d] for i in range(5)]
        div = div + trace(u, dtest, nd)
        div = div + trace([gu[0][d], gu[1][d]], z, nd) - trace([0, 0], z, nd) - gT[d] * z[3 + d]
    env.eq('exact gradients solve the auxiliary equation', cell + div, 0)


def flux(env):
    """the viscous flux from the auxiliary unknowns is the one from the gradients"""
    import ngsolve as ngs
    from dream.compressible import flowfields
    g, cfg = setup(env, None)
    cfg.dynamic_viscosity = env.choose('law', ['constant', 'sutherland'])
    cfg.initialize_finite_element_spaces()
    cfg.initialize_trial_and_test_functions()
    (U, V), (Q, P) = cfg.TnT['U'], cfg.TnT['Q']
    tr = state(env, 2, g)
    gu, gT = [vec(env, 'gu0', 2), vec(env, 'gu1', 2)], vec(env, 'gT', 2)
    e = strain(gu, 2)
    F = cfg.fem.method.get_conservative_fields(U)
    D = cfg.fem.mixed_method.get_mixed_fields(Q)
    b = {U: conserved(tr), Q: [e[0][0], e[0][1], e[1][1]] + gT}
    G = cfg.get_diffusive_flux(F, D)
    from vlib.forms import settled
    settled(cfg)
    true = flowfields(grad_u=ngs.CF(tuple(gu[0] + gu[1]), dims=(2, 2)), grad_T=ngs.CF(tuple(gT)))
    env.eq('viscous flux', env.value(G, b), env.value(cfg.get_diffusive_flux(F, true), b))


def viscous_terms(env, tr, dq, e, de, dgT, k, Pr):
    """derivative in direction d of the viscous flux in that direction, from derivatives of the unknowns"""
    def term(d, i):
        u, rho = tr['u'], tr['rho']
        du = [(dq[i][1 + j] - u[j] * dq[i][0]) / rho for j in (0, 1)]
        E, dE = sym2(e), de[i]
        Ed, dEd = [dot(r, d) for r in E], [dot(r, d) for r in dE]
        return [0] + [2 * k * x for x in dEd] + [2 * k * (dot(du, Ed) + dot(u, dEd)) + k / Pr * dot(dgT[i], d)]
    return term


def rotated(de, n, t, keep):
    """strain derivative with only the kept components in the frame of the wall"""
    f = {'nn': (n, n), 'nt': (n, t), 'tn': (t, n), 'tt': (t, t)}
    out = [[0, 0], [0, 0]]
    for key in keep:
        a, b = f[key]
        c = sum_(a[i] * de[i][j] * b[j] for i in (0, 1) for j in (0, 1))
        for i in (0, 1):
            for j in (0, 1):
                out[i][j] = out[i][j] + c * a[i] * b[j]
    return out


def boundary_terms(target):
    def run(env):
        """viscous part of the characteristic conditions: the divergence of the viscous flux without the part the target prescribes"""
        import ngsolve as ngs
        from vlib.forms import build
        from dream.compressible import flowfields
        import dream.compressible.config as C
        g, cfg = setup(env, None)
        cfg.time = 'transient'
        dt = env.real('dt', positive=True)
        cfg.time.timer.step = dt
        cfg.bcs['left'] = C.GRCBC(fields=flowfields(rho=1.0, u=ngs.CF((0.5, 0.25)), p=0.75, T=2.5), target=target, is_viscous_fluxes=True)
        cfg.bcs['right'] = C.GRCBC(fields=flowfields(rho=1.0, u=ngs.CF((0.5, 0.25)), p=0.75, T=2.5), target=target, is_viscous_fluxes=False)
        cfg.initialize_finite_element_spaces()
        cfg.initialize_trial_and_test_functions()
        (U, V), (Q, P) = cfg.TnT['U'], cfg.TnT['Q']
        n = env.unit_vector('n')
        t = [-n[1], n[0]]
        tr = state(env, 2, g)
        gU, q, gq = vec(env, 'gU', 8), vec(env, 'q', 5), vec(env, 'gq', 10)
        from vlib.forms import settled
        S = cfg.fem.mixed_method.get_cbc_viscous_terms(cfg.bcs['left'][0])
        settled(cfg)
        S = env.value(S,
                      {U: conserved(tr), ngs.grad(U): gU, Q: q, ngs.grad(Q): gq, cfg.mesh.normal: n, cfg.mesh.tangential: t})
        k = 1 / env.num(cfg.scaling.reference_reynolds_number)
        Pr = env.num(cfg.prandtl_number)

        def along(d, v, m):
            return [v[2 * i] * d[0] + v[2 * i + 1] * d[1] for i in range(m)]
        dq = [along(n, gU, 4), along(t, gU, 4)]
        dQ = [along(n, gq, 5), along(t, gq, 5)]
        de = [sym2(x[:3]) for x in dQ]
        dgT = [x[3:] for x in dQ]
        if target == 'outflow':
            # no change of shear stress and heat flux across an outflow
            de[0] = rotated(de[0], n, t, ('nn', 'tt'))
            c = dot(dgT[0], t)
            dgT[0] = [c * t[0], c * t[1]]
        else:
            # no change of normal stress across an inflow
            de[0] = rotated(de[0], n, t, ('nt', 'tn', 'tt'))
        term = viscous_terms(env, tr, dq, q[:3], de, dgT, k, Pr)
        env.eq('viscous boundary terms', S, [x + y for x, y in zip(term(n, 0), term(t, 1))])
    return run


def switch(env):
    """the viscous terms act on incoming waves of the condition that asks for them, and on no other"""
    import ngsolve as ngs
    from vlib.forms import build
    from dream.compressible import flowfields
    import dream.compressible.config as C
    g, cfg = setup(env, None, ('acoustic',))
    cfg.time = 'transient'
    cfg.time.scheme = env.choose('scheme', ['implicit_euler', 'bdf2'])
    dt = env.real('dt', positive=True)
    later(cfg, 'time.timer.step', dt)
    kind = env.choose('kind', [C.GRCBC, C.NSCBC])
    target = 'farfield' if kind is C.GRCBC else 'outflow'
    state_ = dict(rho=1.0, u=ngs.CF((0.5, 0.25)), p=0.75, T=2.5)
    cfg.bcs['left'] = on = kind(fields=flowfields(**state_), target=target, is_viscous_fluxes=True)
    cfg.bcs['right'] = kind(fields=flowfields(**state_), target=target, is_viscous_fluxes=False)
    f = build(env, cfg)
    (U, V), (Uh, Vh), (Q, P) = cfg.TnT['U'], cfg.TnT['Uhat'], cfg.TnT['Q']
    n = env.unit_vector('n')
    hat = wave_state(env, n, g, '_hat')
    hat['g1'] = g - 1
    L = waves_of(env, hat, n)
    lam = [hat['un'] - hat['c'], hat['un'], hat['un'], hat['un'] + hat['c']]
    i = env.choose('wave', [0, 1, 2, 3])
    env.assume((lam[i] > 0) | (lam[i] < 0)) if env.symbolic else env.assume(lam[i] != 0)
    qh = conserved(hat)
    gU, q, gq = vec(env, 'gU', 8), vec(env, 'q', 5), vec(env, 'gq', 10)
    own = {U: qh, ngs.grad(U): gU, Q: q, ngs.grad(Q): gq, cfg.mesh.normal: n, cfg.mesh.tangential: [-n[1], n[0]]}
    b = dict(own)
    b.update({Uh: qh, Vh: L[i], V: [0] * 4, P: [0] * 5, ngs.grad(Uh): [0] * 8})
    for level in cfg.time.scheme.time_levels[:-1]:
        b[cfg.time.scheme.gfus['Uhat'][level]] = qh
    S = env.value(cfg.fem.mixed_method.get_cbc_viscous_terms(on), own)
    step = dt if cfg.time.scheme.name == 'implicit_euler' else dt * 2 / 3
    diff = f.total(('boundary', 'left'), b) - f.total(('boundary', 'right'), b)
    env.eq('viscous terms on incoming waves', diff, 0 if lam[i] > 0 else -step * dot(L[i], S))


def refusals(env):
    from dream.compressible import FarField
    cfg = solver(env, 3, gas(env))
    cfg.dynamic_viscosity = 'constant'
    cfg.fem.mixed_method = 'strain_heat'
    cfg.mach_number = 0.5
    cfg.initialize_finite_element_spaces()
    cfg.initialize_trial_and_test_functions()
    cfg.initialize_gridfunctions()
    cfg.time.initialize()
    env.raises('3 dimensions are refused', NotImplementedError, lambda: cfg.initialize_symbolic_forms())


def gradient_method(env):
    cfg = solver(env, 2, gas(env), mesh=env.strip(materials=('inner', 'inner')))
    cfg.dynamic_viscosity = 'constant'
    cfg.fem.mixed_method = 'gradient'
    cfg.mach_number = 0.5
    cfg.initialize_finite_element_spaces()
    cfg.initialize_trial_and_test_functions()
    cfg.initialize_gridfunctions()
    cfg.time.initialize()
    env.holds('it has its unknowns', 'Q' in cfg.spaces)
    env.known_error('gradient method', lambda: cfg.fem.mixed_method.get_mixed_fields(cfg.TnT['Q'][0]), (IndexError,), 'gradient-mixed-method-unusable')


def scenarios(thorough):
    return [('mixed form', mixed_form), ('exact flow', exact), ('flux', flux)] + \
        [(f"boundary terms {t}", boundary_terms(t)) for t in ('farfield', 'outflow', 'mass_inflow', 'temperature_inflow')] + \
        [('switch', switch), ('refusals', refusals), ('gradient method', gradient_method)]
