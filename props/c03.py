"""C03 transformations between variable sets are mutually inverse and compose."""
from props.common import *

META = {
    'bounds': 'two space dimensions (the code refuses others); all states with density>0, speed of sound>0, any velocity, gamma>1; '
              'all unit direction vectors; all 4x4 matrices in the similarity transforms',
    'outside': ['non-unit directions'],
}


def setup(env):
    g = gas(env)
    cfg = solver(env, 2, g)
    tr = state(env, 2, g)
    n = env.unit_vector('n')
    U = fields(tr)
    return g, cfg, tr, n, U


def inverse(a, b, needs_n, order):
    def run(env):
        g, cfg, tr, n, U = setup(env)
        nn = cf(n)
        A = env.value(getattr(cfg, a)(U, nn) if needs_n else getattr(cfg, a)(U))
        B = env.value(getattr(cfg, b)(U, nn) if needs_n else getattr(cfg, b)(U))
        env.eq(f"{a} * {b} = I", matmul(A, B, 4, 4, 4), ident(4))
        env.eq(f"{b} * {a} = I", matmul(B, A, 4, 4, 4), ident(4))
    return run


def jacobian_of_change(env):
    """M is the derivative of the conserved by the primitive variables, and the
    characteristic transforms send dV to the documented wave amplitudes"""
    g, cfg, tr, n, U = setup(env)
    M = env.value(cfg.conservative_from_primitive(U))
    Linv = env.value(cfg.characteristic_from_primitive(U, cf(n)))
    V = [tr['rho']] + tr['u'] + [tr['p']]

    def cons(v):
        rho, ux, uy, p = v
        return [rho, rho * ux, rho * uy, p / (g - 1) + rho * (ux * ux + uy * uy) / 2]
    d = [env.real(f"dV{i}") for i in range(4)]
    env.eq('conservative_from_primitive is the derivative of the change of variables', matvec(M, d, 4, 4), env.deriv(cons, V, d), tol=1e-5)
    dn = d[1] * n[0] + d[2] * n[1]
    dt = d[1] * n[1] - d[2] * n[0]
    rc = tr['rho'] * tr['c']
    env.eq('waves of a primitive perturbation', matvec(Linv, d, 4, 4),
           [d[3] - rc * dn, tr['c'] * tr['c'] * d[0] - d[3], dt, d[3] + rc * dn])


def compose(env):
    g, cfg, tr, n, U = setup(env)
    M = env.value(cfg.conservative_from_primitive(U))
    Mi = env.value(cfg.primitive_from_conservative(U))
    L = env.value(cfg.primitive_from_characteristic(U, cf(n)))
    Li = env.value(cfg.characteristic_from_primitive(U, cf(n)))
    P = env.value(cfg.conservative_from_characteristic(U, cf(n)))
    Pi = env.value(cfg.characteristic_from_conservative(U, cf(n)))
    env.eq('P = M L', P, matmul(M, L, 4, 4, 4))
    env.eq('P^-1 = L^-1 M^-1', Pi, matmul(Li, Mi, 4, 4, 4))


def similarity(which):
    def run(env):
        g, cfg, tr, n, U = setup(env)
        X = [env.real(f"x{i}") for i in range(16)]
        import ngsolve as ngs
        Xc = ngs.CF(tuple(X), dims=(4, 4))
        nn = cf(n)
        if which == 'pc':
            got, S, Si = cfg.transform_primitive_to_conservative(Xc, U), cfg.conservative_from_primitive(U), cfg.primitive_from_conservative(U)
        elif which == 'cp':
            got, S, Si = cfg.transform_characteristic_to_primitive(Xc, U, nn), cfg.primitive_from_characteristic(U, nn), cfg.characteristic_from_primitive(U, nn)
        else:
            got, S, Si = cfg.transform_characteristic_to_conservative(Xc, U, nn), cfg.conservative_from_characteristic(U, nn), cfg.characteristic_from_conservative(U, nn)
        want = matmul(matmul(env.value(S), X, 4, 4, 4), env.value(Si), 4, 4, 4)
        env.eq('similarity transform', env.value(got), want)
    return run


def needs(name, keys, with_n):
    """with any subset of the fields: the same matrix, or refused with ValueError"""
    def run(env):
        g, cfg, tr, n, U = setup(env)
        full = env.value(getattr(cfg, name)(U, cf(n)) if with_n else getattr(cfg, name)(U))
        P = lazy_fields(env, {k: cf(tr[k]) for k in tr})
        try:
            got = getattr(cfg, name)(P, cf(n)) if with_n else getattr(cfg, name)(P)
        except ValueError:
            env.holds('refused', True)
            return
        env.eq(f"{name} from any subset", env.value(got), full)
    return run


MATS = [('conservative_from_primitive', False), ('primitive_from_conservative', False), ('primitive_from_characteristic', True),
        ('characteristic_from_primitive', True), ('conservative_from_characteristic', True), ('characteristic_from_conservative', True)]


def scenarios(thorough):
    out = [('M inverse', inverse('conservative_from_primitive', 'primitive_from_conservative', False, 0)),
           ('L inverse', inverse('primitive_from_characteristic', 'characteristic_from_primitive', True, 0)),
           ('P inverse', inverse('conservative_from_characteristic', 'characteristic_from_conservative', True, 0)),
           ('change of variables', jacobian_of_change), ('composition', compose),
           ('similarity pc', similarity('pc')), ('similarity cp', similarity('cp')), ('similarity cc', similarity('cc'))]
    out += [(f"subset {m}", needs(m, None, w)) for m, w in MATS]
    return out
