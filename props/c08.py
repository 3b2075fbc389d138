"""C08 far-field, characteristic and sponge terms preserve uniform flow and act on incoming waves only."""
from props.common import *

META = {
    'bounds': '2 space dimensions on a mesh of two cells; all facet states, interior and target states with density>0, speed of sound>0 (any '
              'velocity, so sub- and supersonic in and outflow and sonic states), gamma>1; all unit normals and test values; implicit Euler and '
              'BDF2 with any step and history; all target kinds, relaxation factors, tangential relaxation, characteristic lengths, Mach '
              'numbers; far-field and target states given by primitive, conservative or mixed fields; sponges with any weight and '
              'polynomial orders up to 4; non-zero wave speeds for the claims on single waves',
    'outside': ['3 space dimensions', 'away from uniform flow, the target state of the temperature inflow (which the documentation does not pin)',
                'the characteristic conditions are written for a fixed step size'],
}

GIVEN = [('rho', 'u', 'p'), ('rho', 'rho_u', 'p'), ('rho', 'u', 'p', 'T', 'rho_u', 'rho_E', 'rho_Ek'), ('rho', 'u', 'T')]


def target_fields(env, tr, vary=True):
    from dream.compressible import flowfields
    keys = env.choose('given', GIVEN) if vary else GIVEN[0]
    return flowfields(**{k: cf(tr[k]) for k in keys})


def waves_of(env, hat, n):
    """left eigenvectors of the flux Jacobian at the facet state"""
    u, c, g1 = hat['u'], hat['c'], hat['g1']
    un = dot(u, n)
    t = [n[1], -n[0]]
    q = dot(u, u) / 2
    b = g1 / (c * c)
    return [[(b * q + un / c) / 2, (-b * u[0] - n[0] / c) / 2, (-b * u[1] - n[1] / c) / 2, b / 2],
            [1 - b * q, b * u[0], b * u[1], -b],
            [-dot(u, t), t[0], t[1], 0],
            [(b * q - un / c) / 2, (-b * u[0] + n[0] / c) / 2, (-b * u[1] + n[1] / c) / 2, b / 2]]


def setup(env, hatname='_hat'):
    g = gas(env)
    mesh = env.strip(materials=('inner', 'sponge'))
    cfg = solver(env, 2, mesh=mesh)
    later(cfg, GAMMA, g)
    n = env.unit_vector('n')
    hat = wave_state(env, n, g, hatname)
    hat['g1'] = g - 1
    return g, cfg, n, hat


def boundary(f, cfg, values, vh, n, history=None, grad=None, extra=None, name=None):
    import ngsolve as ngs
    (U, V), (Uh, Vh) = cfg.TnT['U'], cfg.TnT['Uhat']
    b = {U: values[0], Uh: values[1], Vh: vh, V: [0] * 4, cfg.mesh.normal: n, cfg.mesh.tangential: [-n[1], n[0]]}
    if grad is not None:
        b[ngs.grad(Uh)] = grad
    for level, v in (history or {}).items():
        b[cfg.time.scheme.gfus['Uhat'][level]] = v
    b.update(extra or {})
    return f.total(('boundary', 'left'), b)


def farfield_uniform(env):
    """interior, facet and target agree: nothing is imposed"""
    from vlib.forms import build
    from dream.compressible import FarField
    g, cfg, n, hat = setup(env)
    cfg.bcs['left'] = FarField(fields=target_fields(env, hat), identity_jacobian=env.bool('identity'))
    f = build(env, cfg)
    q = conserved(hat)
    env.eq('uniform flow satisfies the far field', boundary(f, cfg, (q, q), vec(env, 'vh', 4), n), 0)
    env.eq('other boundaries are not concerned', f.total(('boundary', 'right'), {}), 0)


def farfield_waves(env):
    """outgoing waves come from the interior, incoming waves from the target"""
    from vlib.forms import build
    from dream.compressible import FarField
    g, cfg, n, hat = setup(env)
    R, L = eigenvectors(hat, n), waves_of(env, hat, n)
    tr = state(env, 2, g, '_inf')
    ident_ = env.bool('identity')
    cfg.bcs['left'] = FarField(fields=target_fields(env, tr), identity_jacobian=ident_)
    f = build(env, cfg)
    a = vec(env, 'a', 4)
    qh = conserved(hat)
    q = [x + y for x, y in zip(qh, combine(a, R))]
    qinf = conserved(tr)
    un, c = hat['un'], hat['c']
    lam = [un - c, un, un, un + c]
    for x in lam:
        env.assume(x != 0) if not env.symbolic else env.assume((x > 0) | (x < 0))
    i = env.choose('wave', [0, 1, 2, 3])
    got = boundary(f, cfg, (q, qh), L[i], n)
    if lam[i] > 0:
        want = -a[i] * (1 if ident_ else lam[i])
    else:
        want = dot(L[i], [x - y for x, y in zip(qh, qinf)]) * (1 if ident_ else -lam[i])
    env.eq('wave balance', got, want)


def farfield_supersonic(env):
    """all waves enter: the target is imposed; all leave: the interior state is"""
    from vlib.forms import build
    from dream.compressible import FarField
    g, cfg, n, hat = setup(env)
    tr, inner = state(env, 2, g, '_inf'), vec(env, 'q', 4)
    cfg.bcs['left'] = FarField(fields=target_fields(env, tr), identity_jacobian=True)
    f = build(env, cfg)
    vh = vec(env, 'vh', 4)
    qh = conserved(hat)
    un, c = hat['un'], hat['c']
    got = boundary(f, cfg, (inner, qh), vh, n)
    if env.bool('enter'):
        env.assume(un + c < 0)
        env.eq('supersonic inflow', got, dot(vh, [x - y for x, y in zip(qh, conserved(tr))]))
    else:
        env.assume(un - c > 0)
        env.eq('supersonic outflow', got, dot(vh, [x - y for x, y in zip(qh, inner)]))


def factors(env, dim=2):
    """relaxation factors in any form, and the one of each wave"""
    fac = env.choose('factors', ['scalar', 'list', 'tuple', 'dict', 'needed'])
    names = ["acoustic_in", "entropy", "vorticity_0", "vorticity_1", "acoustic_out"]
    if fac == 'scalar':
        k = [env.real('k')] * 5
        arg = k[0]
    else:
        k = vec(env, 'k', 5)
        arg = {'list': list, 'tuple': tuple}.get(fac, lambda k: dict(zip(names, k)))(k)
        if fac in ('dict', 'needed'):
            items = list(arg.items())
            r = env.choose('rotated', [0, 1, 2, 3, 4])
            items = items[r:] + items[:r]
            arg = dict(reversed(items) if env.bool('reversed') else items)
            if fac == 'needed' and dim == 2:
                del arg['vorticity_1']
    return arg, [k[0], k[1], k[2], k[4]] if dim == 2 else k


def forms(env):
    """each wave is relaxed with its own factor however the factors are given"""
    import dream.compressible.config as C
    dim = env.choose('dim', [2, 3])
    g = gas(env)
    cfg = solver(env, dim, g)
    arg, k = factors(env, dim)
    dt, c, M, length = env.real('dt', positive=True), env.real('c', positive=True), env.real('M'), env.real('length', positive=True)
    kind = env.choose('kind', ['grcbc', 'nscbc'])
    bc = C.GRCBC() if kind == 'grcbc' else C.NSCBC(length=length)
    cfg.bcs['left|x0' if dim == 2 else cfg.mesh.GetBoundaries()[0]] = bc
    bc.relaxation_factor = arg
    if kind == 'grcbc':
        want = [x / dt for x in k]
    else:
        s = [c * (1 - M * M)] + [c] * dim + [c * (1 - M * M)]
        want = [x * y / length for x, y in zip(k, s)]
    n = dim + 2
    D = bc.get_relaxation_matrix(dt=dt, c=cf(c), M=M)
    env.eq('relaxation of each wave', env.value(D), [want[i] if i == j else 0 for i in range(n) for j in range(n)])


def relaxation(env, kind, c, M, dt):
    k = vec(env, 'k', 5)
    arg = list(k)
    k = [k[0], k[1], k[2], k[4]]
    if kind == 'grcbc':
        return arg, [x / dt for x in k], {}
    length = env.real('length', positive=True)
    s = [c * (1 - M * M), c, c, c * (1 - M * M)]
    return arg, [x * y / length for x, y in zip(k, s)], {'length': length}


def cbc_setup(env, kind, target, hat, n, cfg, tr, uniform):
    from dream.compressible import GRCBC, NSCBC
    import dream.compressible.config as C
    cfg.time = 'transient'
    cfg.time.scheme = env.choose('scheme', ['implicit_euler', 'bdf2'])
    dt = env.real('dt', positive=True)
    later(cfg, 'time.timer.step', dt)
    M = env.real('M', positive=True)
    later(cfg, 'mach_number', M)
    arg, D, kw = relaxation(env, kind, hat['c'], M, dt)
    bc = {'grcbc': C.GRCBC, 'nscbc': C.NSCBC}[kind](fields=target_fields(env, tr, uniform), target=target, relaxation_factor=arg, **kw)
    beta = env.real('beta')
    bc.tangential_relaxation = beta
    cfg.bcs['left'] = bc
    return bc, D, dt, beta


def cbc_uniform(kind, target):
    def run(env):
        """a resting boundary state equal to the target stays"""
        from vlib.forms import build
        g, cfg, n, hat = setup(env)
        bc, D, dt, beta = cbc_setup(env, kind, target, hat, n, cfg, hat, True)
        bc.is_viscous_fluxes = cfg.time.scheme.name == 'bdf2'       # there are none
        f = build(env, cfg)
        q = conserved(hat)
        levels = [l for l in cfg.time.scheme.time_levels[:-1]]
        env.eq('uniform flow is preserved', boundary(f, cfg, (q, q), waves_of(env, hat, n)[env.choose('wave', [0, 1, 2, 3])], n, {l: q for l in levels}, [0] * 8), 0)
    return run


def cbc_waves(kind, target):
    def run(env):
        """outgoing waves are those of the interior; incoming waves evolve from their history towards the target"""
        from vlib.forms import build
        g, cfg, n, hat = setup(env)
        R, L = eigenvectors(hat, n), waves_of(env, hat, n)
        tr = state(env, 2, g, '_inf')
        bc, D, dt, beta = cbc_setup(env, kind, target, hat, n, cfg, tr, False)
        f = build(env, cfg)
        qh = conserved(hat)
        if target == 'farfield':
            q = [x + y for x, y in zip(qh, vec(env, 'd', 4))]
            goal = conserved(tr)
        else:
            inner = state(env, 2, g, '_in')
            q = conserved(inner)
            if target == 'outflow':
                goal = [q[0], q[1], q[2], tr['p'] / (g - 1) + inner['rho_Ek']]
            else:
                goal = conserved(tr)[:3] + [inner['p'] / (g - 1) + tr['rho_Ek']]
        history = {l: vec(env, f"h{i}_", 4) for i, l in enumerate(cfg.time.scheme.time_levels[:-1])}
        lv = list(history.values())
        if len(lv) == 1:
            old, step = lv[0], dt
        else:
            old, step = [(4 * y - x) / 3 for x, y in zip(*lv)], dt * 2 / 3
        grad = vec(env, 'g', 8)
        un, c = hat['un'], hat['c']
        lam = [un - c, un, un, un + c]
        i = env.choose('wave', [0, 1, 2, 3])
        env.assume((lam[i] > 0) | (lam[i] < 0)) if env.symbolic else env.assume(lam[i] != 0)
        t = [-n[1], n[0]]
        got = boundary(f, cfg, (q, qh), L[i], n, history, grad)
        if lam[i] > 0:
            want = dot(L[i], [x - y for x, y in zip(qh, q)])
        else:
            tang = [dot(grad[2 * k:2 * k + 2], t) for k in range(4)]
            want = dot(L[i], [x - y for x, y in zip(qh, old)]) - step * D[i] * dot(L[i], [x - y for x, y in zip(goal, qh)]) + \
                step * beta * dot(L[i], flux_derivative(hat, t, tang, g))
        env.eq('wave balance', got, want)
    return run


def flux_derivative(tr, d, dq, g):
    """derivative of the Euler flux in direction d at the state along dq"""
    u, H = tr['u'], tr['H']
    ud = dot(u, d)
    dm = dot(dq[1:3], d)
    du_d = dm - ud * dq[0]
    dp = (g - 1) * (dq[3] - dot(u, dq[1:3]) + dot(u, u) / 2 * dq[0])
    out = [dm]
    for k in range(2):
        out.append(ud * dq[1 + k] + u[k] * du_d + d[k] * dp)
    out.append(H * du_d + ud * (dq[3] + dp))
    return out


def sponge(env):
    """sponge terms drive towards the target with the given weight, nowhere else"""
    from vlib.forms import build
    from dream.mesh import SpongeLayer
    import ngsolve as ngs
    g, cfg, n, hat = setup(env)
    tr = state(env, 2, g, '_inf')
    w = env.real('weight')
    cfg.dcs['sponge'] = SpongeLayer(function=ngs.CF(w), target_state=target_fields(env, tr), order=env.choose('order', [0, 2]))
    f = build(env, cfg)
    (U, V) = cfg.TnT['U']
    q, v = vec(env, 'q', 4), vec(env, 'v', 4)
    key = [lambda k: 'sponge' in k]
    b = {U: q, V: v}
    env.eq('sponge term', f.total(('cell', 'sponge', 1), b, key), w * dot([x - y for x, y in zip(q, conserved(tr))], v))
    env.eq('no term outside the layer', f.total(('cell', 'inner', 0), b, key), 0)


def psponge(env):
    """p-sponges remove what the lower order cannot represent, the last one drives to the target"""
    from vlib.forms import build
    from dream.mesh import PSpongeLayer
    import ngsolve as ngs
    g, cfg, n, hat = setup(env)
    tr = state(env, 2, g, '_inf')
    w = env.real('weight')
    low = env.choose('low', [0, 1, 2])
    high = low + env.choose('more', [0, 1, 2])
    cfg.fem.order = high
    cfg.dcs['sponge'] = PSpongeLayer(function=ngs.CF(w), target_state=target_fields(env, tr), high_order=high, low_order=low)
    seen = []
    lower = vec(env, 'low_part', 4)

    def interpolate(proxy, space, *a, **k):
        seen.append((proxy, space))
        return ngs.CF(lower[len(seen) - 1])
    f = build(env, cfg, interpolate)
    (U, V) = cfg.TnT['U']
    q, v = vec(env, 'q', 4), vec(env, 'v', 4)
    key = [lambda k: 'sponge' in k]
    b = {U: q, V: v}
    got = f.total(('cell', 'sponge', 1), b, key)
    if high == low:
        env.eq('p-sponge term of the last layer', got, w * dot([x - y for x, y in zip(q, conserved(tr))], v))
    else:
        env.holds('every component is projected once', len(seen) == 4)
        for i, (proxy, space) in enumerate(seen):
            env.eq('component projected', env.value(proxy, b), q[i])
            env.holds('on the low order', space.globalorder == low)
        env.eq('p-sponge term', got, w * dot([x - y for x, y in zip(q, lower)], v))
    env.eq('no term outside the layer', f.total(('cell', 'inner', 0), b, key), 0)


def scenarios(thorough):
    out = [('farfield uniform', farfield_uniform), ('farfield waves', farfield_waves), ('farfield supersonic', farfield_supersonic)]
    for kind in ('grcbc', 'nscbc'):
        for t in ('farfield', 'outflow', 'mass_inflow', 'temperature_inflow'):
            out.append((f"{kind} {t} uniform", cbc_uniform(kind, t)))
            if t != 'temperature_inflow':
                out.append((f"{kind} {t} waves", cbc_waves(kind, t)))
    return out + [('relaxation factors', forms), ('sponge', sponge), ('psponge', psponge)]
