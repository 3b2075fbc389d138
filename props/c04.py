"""C04 flux, flux Jacobians and characteristic quantities agree."""
from props.common import *

META = {
    'bounds': 'flux: 2 and 3 space dimensions; Jacobians and characteristics: 2 dimensions (the code refuses others); all states with '
              'density>0, speed of sound>0, any velocity, gamma>1; all unit directions; every subset of given fields for the flux',
    'outside': ['non-unit directions'],
}


def flux_of(g):
    def F(q, d):
        """independent Euler flux of the conserved variables in direction d"""
        dim = len(q) - 2
        rho, m, E = q[0], q[1:-1], q[-1]
        p = (g - 1) * (E - dot(m, m) / (2 * rho))
        mn = dot(m, d)
        return [mn] + [m[i] * mn / rho + p * d[i] for i in range(dim)] + [(E + p) * mn / rho]
    return F


def conserved(tr):
    return [tr['rho']] + tr['rho_u'] + [tr['rho_E']]


def flux(dim):
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        tr = state(env, dim, g)
        U = lazy_fields(env, {k: cf(v) for k, v in tr.items()})
        try:
            got = cfg.get_convective_flux(U)
        except ValueError:
            env.holds('refused', True)
            return
        F = flux_of(g)
        e = [[1 if i == j else 0 for j in range(dim)] for i in range(dim)]
        cols = [F(conserved(tr), e[j]) for j in range(dim)]
        env.eq('convective flux', env.value(got), [cols[j][i] for i in range(dim + 2) for j in range(dim)])
        env.holds('flux shape', tuple(got.dims) == (dim + 2, dim))
    return run


def setup(env):
    g = gas(env)
    cfg = solver(env, 2, g)
    tr = state(env, 2, g)
    n = env.unit_vector('n')
    return g, cfg, tr, n, fields(tr)


def cartesian(env):
    g, cfg, tr, n, U = setup(env)
    A = env.value(cfg.conservative_convective_jacobian_x(U))
    B = env.value(cfg.conservative_convective_jacobian_y(U))
    d = [env.real(f"dU{i}") for i in range(4)]
    F = flux_of(g)
    q = conserved(tr)
    env.eq('A is dF_x/dU', matvec(A, d, 4, 4), env.deriv(lambda q: F(q, [1, 0]), q, d), tol=1e-5)
    env.eq('B is dF_y/dU', matvec(B, d, 4, 4), env.deriv(lambda q: F(q, [0, 1]), q, d), tol=1e-5)


def normal(env):
    g, cfg, tr, n, U = setup(env)
    d = [env.real(f"dU{i}") for i in range(4)]
    An = env.value(cfg.get_conservative_convective_jacobian(U, cf(n)))
    F = flux_of(g)
    env.eq('A_n is d(F n)/dU', matvec(An, d, 4, 4), env.deriv(lambda q: F(q, n), conserved(tr), d), tol=1e-5)


def primitive(env):
    g, cfg, tr, n, U = setup(env)
    Ax = env.value(cfg.primitive_convective_jacobian_x(U))
    Ay = env.value(cfg.primitive_convective_jacobian_y(U))
    An = env.value(cfg.get_primitive_convective_jacobian(U, cf(n)))
    rho, (ux, uy), c = tr['rho'], tr['u'], tr['c']
    d = [env.real(f"dV{i}") for i in range(4)]
    want_x = [ux * d[0] + rho * d[1], ux * d[1] + d[3] / rho, ux * d[2], rho * c * c * d[1] + ux * d[3]]
    want_y = [uy * d[0] + rho * d[2], uy * d[1], uy * d[2] + d[3] / rho, rho * c * c * d[2] + uy * d[3]]
    env.eq('primitive Jacobian x', matvec(Ax, d, 4, 4), want_x)
    env.eq('primitive Jacobian y', matvec(Ay, d, 4, 4), want_y)
    env.eq('primitive Jacobian in direction n', matvec(An, d, 4, 4), [n[0] * a + n[1] * b for a, b in zip(want_x, want_y)])


def velocities(env):
    g, cfg, tr, n, U = setup(env)
    un = dot(tr['u'], n)
    lam = env.value(cfg.characteristic_velocities(U, cf(n)))
    env.eq('characteristic velocities', lam, [un - tr['c'], un, un, un + tr['c']])
    env.raises('unknown selection is refused', ValueError, lambda: cfg.characteristic_velocities(U, cf(n), 'sideways'))


def amplitudes(type_):
    def run(env):
        import ngsolve as ngs
        from dream.compressible import flowfields
        g, cfg, tr, n, U = setup(env)
        gr = [env.real(f"gr{i}") for i in range(2)]
        gp = [env.real(f"gp{i}") for i in range(2)]
        gu = [env.real(f"gu{i}") for i in range(4)]
        dU = flowfields(grad_rho=tuple(gr), grad_p=tuple(gp), grad_u=ngs.CF(tuple(gu), dims=(2, 2)))
        # dW/dn = L^-1 dV/dn
        dV = [dot(gr, n), gu[0] * n[0] + gu[1] * n[1], gu[2] * n[0] + gu[3] * n[1], dot(gp, n)]
        Linv = env.value(cfg.characteristic_from_primitive(U, cf(n)))
        W = matvec(Linv, dV, 4, 4)
        env.eq('characteristic variables', env.value(cfg.characteristic_variables(U, dU, cf(n))), W)
        lam = env.value(cfg.characteristic_velocities(U, cf(n), type_))
        got = env.value(cfg.characteristic_amplitudes(U, dU, cf(n), type_))
        env.eq('characteristic amplitudes', got, [l * w for l, w in zip(lam, W)])
    return run


def amplitudes_subset(env):
    import ngsolve as ngs
    g, cfg, tr, n, _ = setup(env)
    gr = [env.real(f"gr{i}") for i in range(2)]
    gp = [env.real(f"gp{i}") for i in range(2)]
    gu = [env.real(f"gu{i}") for i in range(4)]
    full = {'grad_rho': cf(gr), 'grad_p': cf(gp), 'grad_u': ngs.CF(tuple(gu), dims=(2, 2))}
    U = lazy_fields(env, {k: cf(tr[k]) for k in tr})
    dU = lazy_fields(env, full, 'dhas_')
    try:
        got = cfg.characteristic_amplitudes(U, dU, cf(n))
    except ValueError:
        env.holds('refused', True)
        return
    un = dot(tr['u'], n)
    rc = tr['rho'] * tr['c']
    gun = [gu[0] * n[0] + gu[1] * n[1], gu[2] * n[0] + gu[3] * n[1]]
    lam = [un - tr['c'], un, un, un + tr['c']]
    W = [dot(gp, n) - rc * dot(gun, n), tr['c'] * tr['c'] * dot(gr, n) - dot(gp, n), gun[0] * n[1] - gun[1] * n[0], dot(gp, n) + rc * dot(gun, n)]
    env.eq('characteristic amplitudes of any subset', env.value(got), [a * b for a, b in zip(lam, W)])


def rankine(env):
    """homogeneity: the Euler flux satisfies F_n(U) = A_n U"""
    g, cfg, tr, n, U = setup(env)
    A = env.value(cfg.conservative_convective_jacobian_x(U))
    B = env.value(cfg.conservative_convective_jacobian_y(U))
    q = conserved(tr)
    Fl = env.value(cfg.get_convective_flux(U))
    Fn = matvec(Fl, n, 4, 2)
    env.eq('A_n U = F(U) n', [n[0] * a + n[1] * b for a, b in zip(matvec(A, q, 4, 4), matvec(B, q, 4, 4))], Fn)


def scenarios(thorough):
    from props.live import follows, convection
    return [('follows', follows(convection, names=('gamma',))), ('flux 2d', flux(2)), ('flux 3d', flux(3)), ('cartesian Jacobians', cartesian), ('normal Jacobian', normal),
            ('primitive Jacobians', primitive), ('characteristic velocities', velocities)] + \
        [(f"amplitudes {t}", amplitudes(t)) for t in (None, 'incoming', 'outgoing', 'absolute')] + \
        [('amplitudes subset', amplitudes_subset), ('homogeneity', rankine)]
