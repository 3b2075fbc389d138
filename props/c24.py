"""C24 buffer coordinates and sponge weights are continuous and monotone ramps."""
from props.common import *

META = {
    'bounds': 'all points, layer limits in either direction, offsets and weights; coordinates along each axis and radial ones in 2 and 3 '
              'dimensions; polynomial orders 1 to 6; layers of piecewise constant weights on a mesh of three domains',
    'outside': ['layers of no thickness', 'the projection of weights on polynomial spaces of higher order'],
    'witness_cap': 30,
}


def layer(env):
    """limits of a layer, in either direction"""
    a, b = env.real('start'), env.real('end')
    if env.bool('upwards'):
        env.assume(a < b)
        return a, b, 1
    env.assume(b < a)
    return a, b, -1


def ramp(env, coord, at, a, b, s):
    """the coordinate of a layer as a function of the physical coordinate"""
    t = env.real('t')
    got = at(coord, t)
    env.prove('inside the layer it is the coordinate', (s * t < s * a) | (s * t > s * b) | (got == t)) if env.symbolic else \
        env.eq('inside the layer it is the coordinate', got, t if s * a <= s * t <= s * b else got)
    env.prove('before the layer it is the start', (s * t > s * a) | (got == a)) if env.symbolic else \
        env.eq('before the layer it is the start', got, a if s * t <= s * a else got)
    env.prove('beyond the layer it is the end', (s * t < s * b) | (got == b)) if env.symbolic else \
        env.eq('beyond the layer it is the end', got, b if s * t >= s * b else got)
    x = at(coord.get_normalised_coordinate(), t)
    env.le('normalised from zero', 0, x)
    env.le('normalised to one', x, 1)
    env.eq('normalised coordinate', x * (b - a) + a, got)
    env.eq('thickness', env.num(cf(coord.length)), s * (b - a))
    env.eq('limits', [coord.x0, coord.xn], [a, b])


def axis(env):
    from dream.mesh import BufferCoord
    i = env.choose('axis', [0, 1, 2])
    a, b, s = layer(env)
    make = [BufferCoord.x, BufferCoord.y, BufferCoord.z][i]
    shift = env.real('shift') if env.bool('shifted') else None
    coord = make(a, b) if shift is None else make(a, b, shift)
    env.eq('offset', coord.shift, 0 if shift is None else shift)
    other = env.real('other')

    def at(c, t):
        p = [other] * 3
        p[i] = t if shift is None else t + shift
        return env.num(c, point=p)
    ramp(env, coord, at, a, b, s)


def radial(env):
    """radial coordinates depend on the distance to the centre only"""
    from dream.mesh import BufferCoord
    dim = env.choose('dim', [2, 3])
    a, b = env.real('start'), env.real('end')
    env.assume(a >= 0)
    env.assume(a < b)
    make = {2: BufferCoord.polar, 3: BufferCoord.spherical}[dim]
    shift = vec(env, 'shift', dim) if env.bool('shifted') else None
    coord = make(a, b) if shift is None else make(a, b, shift=tuple(shift))
    env.eq('centre', list(coord.shift), [0] * dim if shift is None else shift)
    d = env.unit_vector('direction', dim)
    zero = [env.real('z')] if dim == 2 else []
    r = env.real('r')
    env.assume(r >= 0)
    t = r
    p = [t * c + (0 if shift is None else o) for c, o in zip(d, shift or d)] + zero
    got = env.num(coord, point=p)
    x = env.num(coord.get_normalised_coordinate(), point=p)

    if r < a:
        env.eq('before the layer', [got, x], [a, 0])
    elif r > b:
        env.eq('beyond the layer', [got, x], [b, 1])
    else:
        env.eq('inside the layer', [got, x * (b - a)], [r, r - a])
    env.eq('thickness', env.num(cf(coord.length)), b - a)
    env.eq('limits', [coord.x0, coord.xn], [a, b])


def weight(kind):
    """weights rise from zero at the start of the layer to their nominal value at its end"""
    def fn(env):
        from dream.mesh import BufferCoord, SpongeFunction
        a, b, s = layer(env)
        w = env.real('weight')
        coord = BufferCoord.x(a, b)
        p, q = env.real('p'), env.real('q')
        if kind == 'constant':
            f = SpongeFunction.constant(w)
            env.eq('the same everywhere', [env.num(f, point=[p, 0, 0])], [w])
            return
        n = None
        if kind == 'polynomial':
            n = env.choose('order', [None, 1, 2, 3, 4, 5, 6])
            f = SpongeFunction.polynomial(w, coord) if n is None else SpongeFunction.polynomial(w, coord, order=n) if env.bool('named') else \
                SpongeFunction.polynomial(w, coord, n)
            n = n or 3
        else:
            f = SpongeFunction.penta(w, coord)
        fp = env.num(f, point=[p, 0, 0])
        x = s * (p - a)
        L = s * (b - a)
        if x <= 0:
            env.eq('no weight before the layer', fp, 0)
        elif x >= L:
            env.eq('nominal weight beyond the layer', fp, w)
        elif kind == 'polynomial':
            want = w
            for _ in range(n):
                want = want * x
                fp = fp * L
            env.eq('power of the relative depth', fp, want)
        else:
            # the quintic with vanishing slope and curvature at both ends
            t = x / L
            env.eq('smooth step', fp, w * t * t * t * (10 - 15 * t + 6 * t * t))
    return fn


def growth(kind):
    def fn(env):
        from dream.mesh import BufferCoord, SpongeFunction
        a, b, s = layer(env)
        w = env.real('weight', positive=True)
        coord = BufferCoord.x(a, b)
        # relative depths of two points
        x, y = env.real('x'), env.real('y')
        env.assume(x <= y)
        f = SpongeFunction.polynomial(w, coord, order=env.choose('order', [1, 2, 3])) if kind == 'polynomial' else SpongeFunction.penta(w, coord)
        fx, fy = (env.num(f, point=[a + t * (b - a), 0, 0]) for t in (x, y))
        env.le('grows into the layer', fx, fy)
        env.le('not negative', 0, fx)
        env.le('not above the nominal weight', fy, w)
    return fn


def refusals(env):
    import ngsolve as ngs
    from dream.mesh import SpongeFunction
    bad = env.choose('coordinate', [0, 1, 2])
    bad = [ngs.x, 1.0, None][bad]
    env.raises('polynomial without a layer', TypeError, lambda: SpongeFunction.polynomial(1, bad))
    env.raises('smooth step without a layer', TypeError, lambda: SpongeFunction.penta(1, bad))


def shown(env):
    """the function that shows the layers has the weight of each layer inside it and is zero elsewhere"""
    import ngsolve as ngs
    from dream.mesh import SpongeLayer, PSpongeLayer, SpongeFunction
    names = ('in', 'inner', 'sponge')
    cfg = solver(env, 2, mesh=env.strip(materials=names))
    layout = env.choose('layout', [[0, None, None], [None, 0, 1], [0, 1, 2], [0, None, 0], [1, 1, 0]])
    kind, get = env.choose('kind', [(SpongeLayer, 'get_sponge_layer_function'), (PSpongeLayer, 'get_psponge_layer_function')])
    w = {}
    by_pattern = env.bool('given')
    given = {}
    for k in sorted({k for k in layout if k is not None}):
        w[k] = env.real(f"w{k}")
        layer_ = kind(function=SpongeFunction.constant(w[k]), target_state=1)
        pattern = '|'.join(n for n, j in zip(names, layout) if j == k)
        if by_pattern:
            given[pattern] = layer_
        else:
            cfg.dcs[pattern] = layer_
    gfu = getattr(cfg.dcs, get)(given) if by_pattern else getattr(cfg.dcs, get)()
    for i, k in enumerate(layout):
        env.eq(f"weight in {names[i]}", env.value(gfu, region=i, element=i), [0 if k is None else w[k]])


def scenarios(thorough):
    return [('axis', axis), ('radial', radial), ('constant weight', weight('constant')), ('polynomial weight', weight('polynomial')),
            ('smooth weight', weight('penta')), ('growth of polynomials', growth('polynomial')), ('growth of the smooth step', growth('penta')),
            ('refusals', refusals), ('shown layers', shown)]
