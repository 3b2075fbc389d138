"""C07 consistency and conservation of the discrete convective and diffusive flux."""
from props.common import *

META = {
    'bounds': '2 space dimensions on a mesh of two cells (6 boundary facets, 1 inner facet); all cell and facet states with density>0, '
              'speed of sound>0, any velocity, gamma>1; all test values and gradients; all unit normals; every Riemann solver, mixed method '
              'none/strain-heat; polynomial order 0..3, with and without bonus integration and static condensation; every assignment of no '
              'condition / far field / wall / periodic to the boundary regions',
    'outside': ['3 space dimensions', 'quadrature errors of the assembled integrals', 'the gradient mixed method (recorded as a finding in C11)'],
}


def conditions(env, cfg, names, options):
    out = {}
    for b in names:
        k = env.choose(f"bc_{b}", options)
        out[b] = k
        if k == 'farfield':
            from dream.compressible import FarField
            cfg.bcs[b] = FarField(fields={'rho': 1.0, 'u': (0.5, 0.25), 'p': 0.75})
        elif k == 'wall':
            cfg.bcs[b] = 'inviscid_wall'
        elif k == 'periodic':
            cfg.bcs[b] = 'periodic'
    return out


def setup(env, riemann=None, viscous=False, order=None, names=('left', 'right'), options=('none', 'wall')):
    g = gas(env)
    mesh = env.strip(materials=('inner', 'inner'))
    cfg = solver(env, 2, mesh=mesh)
    later(cfg, GAMMA, g)
    if riemann:
        cfg.riemann_solver = riemann
    if viscous:
        cfg.dynamic_viscosity = 'constant'
        cfg.fem.mixed_method = 'strain_heat'
        later(cfg, 'reynolds_number', env.real('Re', positive=True))
        later(cfg, 'prandtl_number', env.real('Pr', positive=True))
        cfg.mach_number = 0.5
        cfg.scaling = 'acoustic'
    if order is not None:
        cfg.fem.order = order
    bcs = conditions(env, cfg, names, options)
    return g, cfg, bcs


def forms_of(env, cfg):
    from vlib.forms import build
    return build(env, cfg)


def proxies(cfg, which='U'):
    return cfg.TnT[which]


def cell(env):
    """the interior term is minus flux times test gradient, wherever and whatever the discretisation options"""
    import ngsolve as ngs
    g, cfg, bcs = setup(env, order=env.choose('order', [0, 1, 2, 3]))
    if env.bool('condense'):
        cfg.optimizations.static_condensation = True
    if env.bool('bonus'):
        cfg.optimizations.bonus_int_order = {'vol': 2, 'bnd': 3}
    f = forms_of(env, cfg)
    tr = state(env, 2, g)
    U, V = proxies(cfg)
    v, gv = vec(env, 'v', 4), vec(env, 'gv', 8)
    Fx, Fy = euler_flux(tr, [1, 0]), euler_flux(tr, [0, 1])
    want = -dot(Fx, gv[0::2]) - dot(Fy, gv[1::2])
    got = f.total(('cell', 'inner', 0), {U: conserved(tr), V: v, ngs.grad(V): gv}, ['convection'])
    env.eq('interior balance is the weak divergence of the flux', got, want)
    env.eq('no other interior term', f.total(('cell', 'inner', 0), {U: conserved(tr), V: v, ngs.grad(V): gv}), want)


def facet(riemann):
    def run(env):
        """numerical flux on each facet: consistent, conservative, upwind"""
        import ngsolve as ngs
        g, cfg, bcs = setup(env, riemann)
        f = forms_of(env, cfg)
        n = env.unit_vector('n')
        hat = wave_state(env, n, g, '_hat')
        # the jump U - Uhat, by waves of the facet state
        a = vec(env, 'a', 4)
        R = eigenvectors(hat, n)
        jump = combine(a, R)
        qh = conserved(hat)
        q = [x + y for x, y in zip(qh, jump)]
        v, vh = vec(env, 'v', 4), vec(env, 'vh', 4)
        (U, V), (Uh, Vh) = proxies(cfg), proxies(cfg, 'Uhat')
        un, c = hat['un'], hat['c']
        lam = [un - c, un, un, un + c]
        if riemann in (None, 'lax_friedrich'):
            s = [abs_(un) + c] * 4
        elif riemann == 'roe':
            s = [abs_(x) for x in lam]
        elif riemann == 'upwind':
            s = [pos_(x) for x in lam]
        elif riemann == 'hll':
            s = [pos_(un + c)] * 4
        elif riemann == 'hllem':
            th = abs_(un) / (abs_(un) + c)
            th = th if th > 1e-8 else 1e-8
            sp = pos_(un + c)
            s = [sp, sp * th, sp * th, sp]
        Fn = [x + y for x, y in zip(euler_flux(hat, n), combine([k * x for k, x in zip(s, a)], R))]
        b = {U: q, Uh: qh, V: v, Vh: vh, cfg.mesh.normal: n}
        inner = f.total(('facet', env.facet('inner'), 0), b)
        env.eq('inner facet: flux leaves the cell and enters the facet balance', inner, dot(Fn, v) - dot(Fn, vh))
        for name in ('left', 'right'):
            el = 0 if name == 'left' else 1
            got = f.total(('facet', env.facet(name), el), b)
            if bcs[name] == 'none':
                continue
            env.eq('boundary facet: the facet balance is left to the condition', got, dot(Fn, v))
    return run


def periodic(env):
    """periodic and interior facets carry the conservative balance, every facet of any other condition none"""
    g, cfg, bcs = setup(env, names=('left', 'right', 'bottom', 'top'), options=('wall', 'farfield', 'periodic'))
    f = forms_of(env, cfg)
    n = env.unit_vector('n')
    hat, tr = wave_state(env, n, g, '_hat'), wave_state(env, n, g)
    (U, V), (Uh, Vh) = proxies(cfg), proxies(cfg, 'Uhat')
    vh = vec(env, 'vh', 4)
    b = {U: conserved(tr), Uh: conserved(hat), V: [0, 0, 0, 0], Vh: vh, cfg.mesh.normal: n}
    balance = f.total(('facet', env.facet('inner'), 1), b)
    s = abs_(hat['un']) + hat['c']
    Fn = [x + s * (y - z) for x, y, z in zip(euler_flux(hat, n), conserved(tr), conserved(hat))]
    env.eq('inner facet balance', balance, -dot(Fn, vh))
    for name, i, el in (('left', 0, 0), ('right', 0, 1), ('bottom', 0, 0), ('bottom', 1, 1), ('top', 0, 0), ('top', 1, 1)):
        got = f.total(('facet', env.facet(name, i), el), b)
        env.eq('facet balance', got, -dot(Fn, vh) if bcs[name] == 'periodic' else 0)


def viscous(env):
    """diffusive flux: consistent (equal states give G n), conservative, penalty acts on momentum and energy jumps only"""
    import ngsolve as ngs
    g, cfg, bcs = setup(env, viscous=True)
    f = forms_of(env, cfg)
    n = env.unit_vector('n')
    hat, tr = state(env, 2, g, '_hat'), state(env, 2, g)
    e = vec(env, 'e', 3)
    gT = vec(env, 'gT', 2)
    (U, V), (Uh, Vh), (Q, P) = proxies(cfg), proxies(cfg, 'Uhat'), proxies(cfg, 'Q')
    v, vh, gv = vec(env, 'v', 4), vec(env, 'vh', 4), vec(env, 'gv', 8)
    Re = cfg.scaling.reference_reynolds_number
    Re = env.num(Re)
    Pr = env.num(cfg.prandtl_number)
    tau = [2 * x / Re for x in (e[0], e[1], e[1], e[2])]

    def G(s):
        u = s['u']
        q = [-x / (Re * Pr) for x in gT]
        return [[0, 0], tau[:2], tau[2:], [tau[0] * u[0] + tau[1] * u[1] - q[0], tau[2] * u[0] + tau[3] * u[1] - q[1]]]
    b = {U: conserved(tr), V: v, ngs.grad(V): gv, Uh: conserved(hat), Vh: vh, Q: e + gT, P: [0] * 5, ngs.grad(P): [0] * 10, cfg.mesh.normal: n}
    keys = ['diffusion']
    env.eq('interior viscous balance', f.total(('cell', 'inner', 0), b, keys), dot([x for r in G(tr) for x in r], gv))
    jump = [x - y for x, y in zip(conserved(tr), conserved(hat))]
    pen = [0, 1 / Re, 1 / Re, 1 / (Pr * Re)]
    Gn = [dot(r, n) - t * j for r, t, j in zip(G(hat), pen, jump)]
    env.eq('inner facet viscous flux', f.total(('facet', env.facet('inner'), 0), b, keys), dot(Gn, vh) - dot(Gn, v))
    for name in ('left', 'right'):
        if bcs[name] != 'none':
            env.eq('boundary facet viscous flux', f.total(('facet', env.facet(name), 0 if name == 'left' else 1), b, keys), -dot(Gn, v))


def scenarios(thorough):
    return [('cell', cell)] + [(f"facet {r}", facet(r)) for r in (None, 'lax_friedrich', 'roe', 'hll', 'hllem', 'upwind')] + \
        [('periodic', periodic), ('viscous', viscous)]
