"""C25 grid deformations are monotone maps that fix the undeformed part."""
import contextlib

from props.common import *

META = {
    'bounds': 'linear, exponential and tangential mappings; all layer limits in either direction, all scales above one and all points; '
              'deformations along 1 to 3 axes in every order of assignment, and radial ones about any centre',
    'outside': ['the convergence of the iteration that determines the constants of the exponential and tangential mapping: the symbolic '
                'claims are about its non-zero fixed point; whether it is reached is replayed on the real code for scales from 1.001 to 1000 and '
                'layers from 0.01 to 10',
                'points exactly on an axis through the centre of a radial layer', 'the projection of the displacement on continuous finite '
                'elements'],
    'assumptions': ['the fixed-point iteration converges to the fixed point with the sign of its start'],
    'witness_cap': 200,
}
KINDS = ['linear', 'exponential', 'tangential']


@contextlib.contextmanager
def converged(env):
    """the iteration ends at the fixed point that has the sign of its start"""
    if not env.symbolic:
        yield
        return
    import dream.bla
    import dream.mesh
    from vlib.engine import engine
    engine().patience = 300
    count = []

    def solve(x0, func, *a, **k):
        count.append(1)
        c = env.real(f"constant{len(count)}")
        env.assume((c > 0) if x0 > 0 else (c < 0))
        try:
            fixed = func(c) == c
        except ZeroDivisionError:       # the derivative vanishes: no step of the iteration is defined there
            env.stop()
        env.assume(fixed)
        return c
    keep = dream.bla.fixpoint_iteration
    mods = [m for m in (dream.bla, dream.mesh) if getattr(m, 'fixpoint_iteration', None) is keep]
    for m in mods:
        m.fixpoint_iteration = solve
    try:
        yield
    finally:
        for m in mods:
            m.fixpoint_iteration = keep


def layer(env):
    a, b = env.real('start'), env.real('end')
    if env.bool('upwards'):
        env.assume(a < b)
        return a, b, 1
    env.assume(b < a)
    return a, b, -1


def mapping(env, kind, scale, coord):
    from dream.mesh import GridMapping
    with converged(env):
        return getattr(GridMapping, kind)(scale, coord)


def scaled(env):
    s = env.real('scale')
    env.assume(s > 1)
    return s


def ends(kind):
    """the layer starts where it was and is thicker by the scale"""
    def fn(env):
        from dream.mesh import BufferCoord
        a, b, _ = layer(env)
        s = scaled(env)
        m = mapping(env, kind, s, BufferCoord.x(a, b))
        env.eq('start stays', m(a), a)
        env.eq('end', m(b), a + s * (b - a))
        env.eq('thickness', env.num(cf(m.length)), s * abs(b - a))
    return fn


def reached(kind):
    """the same for layers and scales at which the iteration is slow or steep"""
    def fn(env):
        from dream.mesh import BufferCoord
        s = env.choose('scale', [1.001, 1.01, 1.05, 1.2, 2.0, 5.0, 50.0, 1000.0])
        L = env.choose('thickness', [.01, .1, 1.0, 10.0, -.1, -5.0])
        a = env.real('start')
        env.assume(a <= 10)
        env.assume(a >= -10)
        m = mapping(env, kind, s, BufferCoord.x(a, a + L))
        env.eq('end', m(a + L) - a, s * L)
    return fn


def monotone(kind):
    def fn(env):
        from dream.mesh import BufferCoord
        a, b, _ = layer(env)
        s = scaled(env)
        m = mapping(env, kind, s, BufferCoord.x(a, b))
        # relative depths
        x, y = env.real('x'), env.real('y')
        for c in (x >= 0, x < y, y <= 1):
            env.assume(c)
        p, q = a + x * (b - a), a + y * (b - a)
        if b > a:
            env.lt('strictly increasing', m(p), m(q))
        else:
            env.lt('strictly increasing', m(q), m(p))
    return fn


def displacement(kind):
    """nothing moves before the layer, each point of the layer moves to its image, and beyond it everything moves with its end"""
    def fn(env):
        from dream.mesh import BufferCoord
        a, b, d = layer(env)
        s = scaled(env)
        i = env.choose('axis', [0, 1, 2] if kind != 'tangential' or env.thorough else [0])
        m = mapping(env, kind, s, [BufferCoord.x, BufferCoord.y, BufferCoord.z][i](a, b))
        t = env.real('t')
        p = [0, 0, 0]
        p[i] = t
        got = env.num(m.deformation, point=p)
        if d * t <= d * a:
            env.eq('nothing moves before the layer', got, 0)
        elif d * t < d * b:
            env.eq('moves to its image', t + got, m(t))
        else:
            env.eq('moves with the end of the layer', got, (s - 1) * (b - a))
    return fn


def none(env):
    from dream.mesh import BufferCoord, GridMapping
    a, b, _ = layer(env)
    m = GridMapping.none(BufferCoord.x(a, b))
    t = env.real('t')
    env.eq('identity', m(t), t)
    env.eq('no displacement', env.num(m.deformation, point=[t, 0, 0]), 0)
    env.eq('thickness', env.num(cf(m.length)), abs(b - a))


def radial(kind):
    """points move along the rays from the centre, to the image of their distance"""
    def fn(env):
        from dream.mesh import BufferCoord, GridDeformation
        a, b = env.real('start'), env.real('end')
        env.assume(a >= 0)
        env.assume(a < b)
        s = scaled(env)
        o = vec(env, 'centre', 2)
        m = mapping(env, kind, s, BufferCoord.polar(a, b, shift=tuple(o)))
        x, y = m.polar_to_cartesian()
        n = env.unit_vector('ray')
        for c in n:
            env.assume((c > 0) | (c < 0)) if env.symbolic else env.assume(c != 0)
        r = env.real('r', positive=True)
        p = [o[0] + r * n[0], o[1] + r * n[1], 0]
        if env.bool('deformation'):
            got = env.value(GridDeformation(x=x, y=y).function, point=p)
        else:
            got = [env.num(x.deformation, point=p), env.num(y.deformation, point=p)]
        if r <= a:
            env.eq('nothing moves inside', got, [0, 0])
        elif r < b:
            f = m(r)
            env.eq('moves to its image', [r * n[i] + got[i] for i in range(2)], [f * n[i] for i in range(2)])
        else:
            env.eq('moves with the end of the layer', got, [(s - 1) * (b - a) * n[i] for i in range(2)])
    return fn


def deformation(env):
    """a deformation moves each coordinate by its own mapping, whatever the order of assignment"""
    from dream.mesh import BufferCoord, GridDeformation, GridMapping
    import itertools
    dim = env.choose('dim', [None, 1, 2, 3])
    n = dim or 2
    make = [BufferCoord.x, BufferCoord.y, BufferCoord.z]
    names = 'xyz'
    s = [env.real(f"scale{i}") for i in range(3)]
    for c in s:
        env.assume(c > 1)
    maps = {names[i]: GridMapping.linear(s[i], make[i](0, 1)) for i in range(3)}
    order = env.choose('order', [o for k in range(1, n + 1) for o in itertools.permutations(range(n), k)])
    how = env.choose('how', ['at once', 'one by one', 'set'])
    start = {} if dim is None else {'dim': dim}
    if how == 'at once':
        g = GridDeformation(**start, **{names[i]: maps[names[i]] for i in order})
    else:
        g = GridDeformation(**start)
        for i in order:
            setattr(g, names[i], maps[names[i]]) if how == 'set' else g.update({names[i]: maps[names[i]]})
    active = set(order)
    if env.bool('removed'):
        setattr(g, names[order[0]], None)
        active.discard(order[0])
    p = [env.real(f"p{i}") for i in range(3)]
    for c in p:
        env.assume(c > 0)
        env.assume(c < 1)
    got = env.value(g.function, point=p)
    env.eq('displacement', got, [(s[i] - 1) * p[i] if i in active else 0 for i in range(n)])


def refusals(env):
    import ngsolve as ngs
    from dream.mesh import BufferCoord, GridDeformation, GridMapping
    kind = env.choose('kind', KINDS)
    make = getattr(GridMapping, kind)
    coord = BufferCoord.x(0, 1)
    s = env.real('scale')
    env.assume(s <= 1)
    env.raises('scale that does not stretch', ValueError, lambda: make(s, coord))
    bad = [ngs.x, 1.0, None][env.choose('coordinate', [0, 1, 2])]
    env.raises('no layer', TypeError, lambda: make(2, bad))
    g = GridDeformation()
    for c in 'xyz':
        env.raises('no mapping', TypeError, lambda: setattr(g, c, env.choose(f"bad_{c}", [1.0, 'linear'])))
    env.raises('no function', ValueError, lambda: buffer_function())


def buffer_function():
    from dream.mesh import SpongeLayer
    return SpongeLayer().function


def scenarios(thorough):
    out = [('no mapping', none), ('deformations', deformation), ('refusals', refusals)]
    for k in KINDS:
        out += [(f"ends of the {k} mapping", ends(k)), (f"monotony of the {k} mapping", monotone(k)),
                (f"displacement of the {k} mapping", displacement(k)), (f"radial {k} mapping", radial(k))]
        if k != 'linear':
            out.append((f"constants of the {k} mapping", reached(k)))
    return out
