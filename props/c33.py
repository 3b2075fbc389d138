"""C33 layer functions reach the mesh."""
from props.common import *

META = {
    'bounds': 'rows of three cells in three domains; one to three sponge layers of order 0 to 2 (equal or different) with functions of the stated '
              'order with any coefficients (linear ones as well for order 0); grid deformations of order 1 with any linear mapping, in one or both '
              'directions, of the outer one or two cells on either side; every assignment of layers to domains, by name or by pattern',
    'outside': ['functions the chosen order cannot represent', 'several layers on exactly the same domains', 'periodic meshes', 'three dimensions'],
}

DOMAINS = ('a', 'ab', 'c')


def polynomial(env, name, order):
    """(function, value at (x, y)) with any coefficients"""
    import ngsolve as ngs
    al = [(i, j) for i in range(order + 1) for j in range(order + 1) if i + j <= order]
    k = [env.real(f"{name}{i}{j}") for i, j in al]

    def at(x, y):
        out = 0
        for v, (i, j) in zip(k, al):
            for f, n in ((x, i), (y, j)):
                for _ in range(n):
                    v = v * f
            out = out + v
        return out
    return at(ngs.x, ngs.y) + ngs.CF(0), at


def read(env, gfu, k):
    return env.value(gfu, None, (k + .3, .4), region=k, element=k)


def sponges(kind):
    def fn(env):
        """each layer has its function, everything else zero"""
        from dream.mesh import DomainConditions, SpongeLayer, PSpongeLayer
        mesh = env.strip(materials=DOMAINS)
        cls = {'sponge': SpongeLayer, 'psponge': PSpongeLayer}[kind]
        dcs = DomainConditions(mesh, [SpongeLayer, PSpongeLayer])
        want = {}
        where = env.choose('layers', [('a',), ('ab|c',), ('a', 'c'), ('a', 'ab'), ('a|ab', 'c'), ('a|ab', 'ab'), ('a|ab|c', 'c'), ('a', 'ab', 'c'), ('c', 'a', 'ab')])
        overlap = len(where) == 2 and set(where[0].split('|')) & set(where[1].split('|'))
        for i, pattern in enumerate(where):
            p = env.choose(f"order{i}", [0, 1, 2]) if i == 0 or not overlap else p
            f, at = polynomial(env, f"k{i}_", p)
            dcs[pattern] = cls(function=f, order=p)
            for d in pattern.split('|'):
                want.setdefault(d, []).append(at)
        gfu = dcs.get_sponge_layer_function() if kind == 'sponge' else dcs.get_psponge_layer_function()
        for k, d in enumerate(DOMAINS):
            env.eq(f"function of {d}", read(env, gfu, k), sum(at(k + .3, .4) for at in want.get(d, [])))
    return fn


def means(env):
    """a layer of order zero has the mean of its function on every cell"""
    from dream.mesh import DomainConditions, SpongeLayer
    mesh = env.strip(materials=('a', 'b', 'b'))
    dcs = DomainConditions(mesh, [SpongeLayer])
    f, at = polynomial(env, 'k', 1)
    before, other = env.choose('other layer', [False, True]), lambda x, y: 0
    if before:
        h, other = polynomial(env, 'l', 1)
        dcs['a'] = SpongeLayer(function=h, order=1)
    dcs['b'] = SpongeLayer(function=f, order=0)
    gfu = dcs.get_sponge_layer_function()
    env.eq('before the layer', read(env, gfu, 0), other(.3, .4))
    for k in (1, 2):
        env.eq('mean', read(env, gfu, k), at(k + .5, .5))


def mixed(env):
    """linear functions in three layers: those of order zero have means, the others values, wherever they are"""
    from dream.mesh import DomainConditions, SpongeLayer
    mesh = env.strip(materials=DOMAINS)
    dcs = DomainConditions(mesh, [SpongeLayer])
    want = []
    for k in env.choose('sequence', [(0, 1, 2), (2, 0, 1)]):
        f, at = polynomial(env, f"k{k}_", 1)
        p = env.choose(f"order{k}", [0, 1, 2])
        dcs[DOMAINS[k]] = SpongeLayer(function=f, order=p)
        want.append((k, at(k + .3, .4) if p else at(k + .5, .5)))
    gfu = dcs.get_sponge_layer_function()
    for k, value in want:
        env.eq('mean or value', read(env, gfu, k), value)


def stretched(env):
    """cells of the layers move by their mapping, all others stay"""
    import ngsolve as ngs
    from dream.mesh import DomainConditions, GridDeformation, GridMapping, BufferCoord
    mesh = env.strip(materials=DOMAINS)
    dcs = DomainConditions(mesh, [GridDeformation])
    s = env.real('scale', above=1)
    layer = env.choose('layers', [('c', 2, 3), ('ab|c', 1, 3), ('a', 1, 0), ('a|ab', 2, 0), ('a|ab|c', 0, 3)])
    pattern, x0, xn = layer
    options = {'x': GridMapping.linear(s, BufferCoord.x(x0, xn))}
    both = env.bool('both directions') if pattern == 'a|ab|c' else False
    r = 1
    if both:
        r = env.real('scale y', above=1)
        options['y'] = GridMapping.linear(r, BufferCoord.y(0, 1))
    split = env.bool('one by one')
    for name in (pattern.split('|') if split else [pattern]):
        dcs[name] = GridDeformation(order=1, **options)
    if env.bool('set on the mesh'):
        from dream.compressible import CompressibleFlowSolver
        cfg = CompressibleFlowSolver(mesh)
        for name in pattern.split('|'):
            cfg.dcs[name] = GridDeformation(order=1, **options)
        cfg.set_grid_deformation()
        gfu = mesh.deformation
    else:
        gfu = dcs.get_grid_deformation_function()
    for k, d in enumerate(DOMAINS):
        inside = d in pattern.split('|')
        env.eq(f"displacement of {d}", read(env, gfu, k), [(s - 1) * (k + .3 - x0) if inside else 0, (r - 1) * .4 if inside else 0])


def sides(env):
    """layers on both sides, each with its own mapping"""
    from dream.mesh import DomainConditions, GridDeformation, GridMapping, BufferCoord
    mesh = env.strip(materials=DOMAINS)
    dcs = DomainConditions(mesh, [GridDeformation])
    s, r = env.real('scale left', above=1), env.real('scale right', above=1)
    parts = [('a', GridMapping.linear(s, BufferCoord.x(1, 0))), ('c', GridMapping.linear(r, BufferCoord.x(2, 3)))]
    for name, m in (parts if env.bool('left first') else parts[::-1]):
        dcs[name] = GridDeformation(x=m, order=1)
    gfu = dcs.get_grid_deformation_function()
    for k, want in enumerate([(s - 1) * (.3 - 1), 0, (r - 1) * .3]):
        env.eq(f"displacement of {DOMAINS[k]}", read(env, gfu, k), [want, 0])


def chosen(env):
    """the layers may also be named for the call, whatever else is assigned; other kinds of conditions are refused"""
    import ngsolve as ngs
    from dream.mesh import DomainConditions, GridDeformation, GridMapping, BufferCoord, SpongeLayer
    mesh = env.strip(materials=('a', 'b', 'a'))
    dcs = DomainConditions(mesh, [SpongeLayer, GridDeformation])
    p, q = env.choose('order', [0, 1]), env.choose('order b', [0, 1])
    f, at = polynomial(env, 'k', p)
    h, bt = polynomial(env, 'l', q)
    dcs['a|b'] = SpongeLayer(function=ngs.CF(7.0))
    layers = {'a': SpongeLayer(function=f, order=p)}
    if env.bool('two'):
        layers['b'] = SpongeLayer(function=h, order=q)
    gfu = dcs.get_sponge_layer_function(layers)
    for k, t in enumerate((at, bt if 'b' in layers else lambda x, y: 0, at)):
        env.eq(f"cell {k}", read(env, gfu, k), t(k + .3, .4))
    env.raises('another kind', TypeError, lambda: dcs.get_sponge_layer_function(
        {'a': SpongeLayer(function=f), 'b': GridDeformation(x=GridMapping.linear(2, BufferCoord.x(1, 2)))}))


def scenarios(thorough):
    return [(k, sponges(k)) for k in ('sponge', 'psponge')] + [('means', means), ('mixed', mixed), ('stretched', stretched), ('sides', sides), ('chosen', chosen)]
