"""C05 incoming/outgoing splitting is a partition."""
from props.common import *

META = {
    'bounds': 'two space dimensions; all states with density>0, speed of sound>0, any velocity (sub- and supersonic, either sign, '
              'characteristic speeds exactly zero included), gamma>1; all unit directions',
    'outside': ['non-unit directions'],
}


def setup(env):
    g = gas(env)
    cfg = solver(env, 2, g)
    n = env.unit_vector('n')
    tr = wave_state(env, n, g)
    return g, cfg, tr, n, fields(tr)


def speeds(env):
    g, cfg, tr, n, U = setup(env)
    nn = cf(n)
    lam = env.value(cfg.characteristic_velocities(U, nn))
    pos = env.value(cfg.characteristic_velocities(U, nn, 'outgoing'))
    neg = env.value(cfg.characteristic_velocities(U, nn, 'incoming'))
    ab = env.value(cfg.characteristic_velocities(U, nn, 'absolute'))
    env.eq('speeds split', [a + b for a, b in zip(pos, neg)], lam)
    env.eq('absolute speeds', [a - b for a, b in zip(pos, neg)], ab)
    for i in range(4):
        env.le(f"outgoing speed {i} is not negative", 0, pos[i])
        env.le(f"incoming speed {i} is not positive", neg[i], 0)


def jacobians(kind):
    def run(env):
        g, cfg, tr, n, U = setup(env)
        nn = cf(n)
        get = cfg.get_conservative_convective_jacobian if kind == 'conservative' else cfg.get_primitive_convective_jacobian
        A = env.value(get(U, nn))
        p = env.value(get(U, nn, 'outgoing'))
        m = env.value(get(U, nn, 'incoming'))
        a = env.value(get(U, nn, 'absolute'))
        env.eq('A+ + A- = A', [x + y for x, y in zip(p, m)], A)
        env.eq('A+ - A- = |A|', [x - y for x, y in zip(p, m)], a)
    return run


def identities(kind):
    def run(env):
        g, cfg, tr, n, U = setup(env)
        nn = cf(n)
        get = {'conservative': cfg.get_conservative_convective_identity, 'primitive': cfg.get_primitive_convective_identity,
               'characteristic': cfg.get_characteristic_identity}[kind]
        o = env.value(get(U, nn, 'outgoing'))
        i = env.value(get(U, nn, 'incoming'))
        env.eq('incoming and outgoing identities add up to the identity', [x + y for x, y in zip(i, o)], ident(4))
        env.raises('unknown selection is refused', ValueError, lambda: get(U, nn, 'absolute'))
    return run


def signs(env):
    """a wave counts as outgoing only with positive speed, incoming only otherwise;
    identities select the corresponding part of the Jacobian"""
    g, cfg, tr, n, U = setup(env)
    nn = cf(n)
    un = dot(tr['u'], n)
    lam = [un - tr['c'], un, un, un + tr['c']]
    o = env.value(cfg.get_characteristic_identity(U, nn, 'outgoing'))
    i = env.value(cfg.get_characteristic_identity(U, nn, 'incoming'))
    for k in range(4):
        env.eq(f"outgoing speed {k}", [o[5 * k] * lam[k]], [lam[k] if lam[k] > 0 else 0])
        env.eq(f"incoming speed {k}", [i[5 * k] * lam[k]], [lam[k] if lam[k] < 0 else 0])
    env.eq('off-diagonal', [o[j] for j in range(16) if j % 5] + [i[j] for j in range(16) if j % 5], [0] * 24)


def scenarios(thorough):
    return [('speeds', speeds), ('conservative Jacobian', jacobians('conservative')), ('primitive Jacobian', jacobians('primitive')),
            ('conservative identity', identities('conservative')), ('primitive identity', identities('primitive')),
            ('characteristic identity', identities('characteristic')), ('signs', signs)]
