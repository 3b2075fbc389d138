"""C06 Riemann solvers: stabilisation matrices."""
from props.common import *

META = {
    'bounds': '2 space dimensions (Lax-Friedrichs and HLL also 3); all states with density>0, speed of sound>0, any velocity in either '
              'direction (sub- and supersonic, stagnant and sonic), gamma>1; all unit directions; every HLLEM threshold in [0, 1]; '
              'state given by velocity/temperature, momentum/pressure or all quantities',
    'outside': ['non-unit directions', 'HLLEM, Roe and upwind in 3 dimensions (refused by the code)'],
}

ALIASES = {'lax_friedrich': ('lax_friedrich', 'lf'), 'roe': ('roe',), 'hll': ('hll',), 'hllem': ('hllem',), 'upwind': ('upwind',)}


def eigenvectors(tr, n):
    """right eigenvectors of the 2d Euler flux Jacobian in direction n"""
    u, c, H, q = tr['u'], tr['c'], tr['H'], tr['Ek']
    un = dot(u, n)
    t = [n[1], -n[0]]
    return [[1, u[0] - c * n[0], u[1] - c * n[1], H - c * un],
            [1, u[0], u[1], q],
            [0, t[0], t[1], dot(u, t)],
            [1, u[0] + c * n[0], u[1] + c * n[1], H + c * un]]


def abs_(x):
    return x if x > 0 else -x


def setup(env, name, dim=2, given=None, **opts):
    g = gas(env)
    cfg = solver(env, dim, g)
    cfg.riemann_solver = env.choose('name', ALIASES[name])
    for k, v in opts.items():
        setattr(cfg.riemann_solver, k, v)
    n = env.unit_vector('n', dim)
    if dim == 2:
        # any velocity, by its normal and tangential part
        un, ut = env.real('un'), env.real('ut')
        tr = state(env, dim, g, vel=[un * n[0] + ut * n[1], un * n[1] - ut * n[0]])
    else:
        tr = state(env, dim, g)
    if given is None:
        given = env.choose('given', [('rho', 'u', 'c', 'p', 'T', 'rho_u', 'rho_E', 'E'), ('rho', 'u', 'c'), ('rho', 'u', 'T', 'c'), tuple(tr)])
    U = fields(tr, given)
    return cfg, tr, n, U


def tau(env, cfg, U, n):
    return env.value(cfg.riemann_solver.get_convective_stabilisation_matrix(U, cf(n)))


def lax(dim):
    def run(env):
        cfg, tr, n, U = setup(env, 'lax_friedrich', dim, env.choose('given', [('rho', 'u', 'c'), ('rho', 'rho_u', 'p'), ('rho', 'rho_u', 'T', 'rho_E')]))
        un = dot(tr['u'], n)
        m = abs_(un) + tr['c']
        env.eq('Lax-Friedrichs is the maximal wave speed', tau(env, cfg, U, n), [m * x for x in ident(dim + 2)])
        for lam in (un - tr['c'], un, un + tr['c']):
            env.le('bounds every wave speed', abs_(lam), m)
    return run


def hll(dim):
    def run(env):
        cfg, tr, n, U = setup(env, 'hll', dim, env.choose('given', [('rho', 'u', 'c'), ('rho', 'rho_u', 'p'), ('rho', 'rho_u', 'T', 'rho_E')]))
        s = dot(tr['u'], n) + tr['c']
        env.eq('HLL is the largest outgoing signal speed', tau(env, cfg, U, n), [(s if s > 0 else 0) * x for x in ident(dim + 2)])
    return run


def spectrum(name):
    def run(env):
        opts = {}
        th0 = None
        if name == 'hllem':
            th0 = env.real('theta_0', lo=0, hi=1)
            opts['theta_0'] = th0
        cfg, tr, n, U = setup(env, name, 2, **opts)
        un, c = dot(tr['u'], n), tr['c']
        lam = [un - c, un, un, un + c]
        if name == 'roe':
            want = [abs_(x) for x in lam]
        elif name == 'upwind':
            want = [x if x > 0 else 0 for x in lam]
        else:
            s = un + c if un + c > 0 else 0
            a = abs_(un)
            th = a / (a + c)
            th = th if th > th0 else th0
            want = [s, s * th, s * th, s]
        T = tau(env, cfg, U, n)
        for k, r in enumerate(eigenvectors(tr, n)):
            env.eq(f"{name}: wave {k} is damped with its speed", matvec(T, r, 4, 4), [want[k] * x for x in r])
            env.le('no wave is amplified', 0, want[k])
    return run


def threshold(env):
    """the option is kept, defaults to 1e-8, and is the value used later"""
    cfg = solver(env, 2)
    cfg.riemann_solver = 'hllem'
    env.eq('default threshold', cfg.riemann_solver.theta_0, 1e-8)
    v = env.real('theta_0', lo=0, hi=1)
    cfg.riemann_solver.theta_0 = v
    env.eq('threshold kept', cfg.riemann_solver.theta_0, v)


def default(env):
    """the default solver is Lax-Friedrichs; names select the scheme; others are refused"""
    g = gas(env)
    cfg = solver(env, 2, g)
    tr = state(env, 2, g)
    n = env.unit_vector('n')
    un = dot(tr['u'], n)
    env.eq('default stabilisation', tau(env, cfg, fields(tr), n), [(abs_(un) + tr['c']) * x for x in ident(4)])

    def bad():
        cfg.riemann_solver = 'godunov'
    env.raises('unknown Riemann solver is refused', (TypeError, ValueError), bad)


def scenarios(thorough):
    from props.live import follows, stabilisation
    return [('follows', follows(stabilisation, riemann=['lax_friedrich', 'roe', 'hll', 'hllem', 'upwind'], names=('gamma',))),
            ('lax_friedrich 2d', lax(2)), ('lax_friedrich 3d', lax(3)), ('hll 2d', hll(2)), ('hll 3d', hll(3)),
            ('roe', spectrum('roe')), ('upwind', spectrum('upwind')), ('hllem', spectrum('hllem')), ('threshold', threshold),
            ('default', default)]
