"""C26 polynomial sponge orders are valid and belong to their sub-layers."""
import itertools

from props.common import *

META = {
    'bounds': 'all integer limits between -2 and 6 given in either order, at once, one by one or over existing limits; ladders with all limits up to 6 '
              '(thorough 9) and all steps; rows of 2 or 3 (thorough 4) sub-layers each left alone or at any order up to the discretisation order, which runs up to 2 '
              '(thorough 3), addressed singly or by a pattern',
    'outside': ['triangular and curved cells', 'three-dimensional facets, which the code refuses'],
    'witness_cap': 300,
}


def limits(env):
    """limits are accepted exactly if they are ordered and not negative, whatever the order they are given in"""
    from dream.mesh import PSpongeLayer
    def pair(k):
        high, low = env.int(f"high{k}", -2, 6), env.int(f"low{k}", -2, 6)
        return high, low, (low >= 0) & (high >= low) if env.symbolic else (low >= 0 and high >= low)
    high, low, fine = pair(0)
    how = env.choose('how', ['high first', 'low first', 'only high', 'one by one'])
    if how == 'one by one':
        layer = PSpongeLayer()
        make = lambda: (setattr(layer, 'high_order', high), setattr(layer, 'low_order', low), layer)[2]
    elif how == 'only high':
        env.assume(low == 0)
        make = lambda: PSpongeLayer(high_order=high)
    else:
        make = (lambda: PSpongeLayer(high_order=high, low_order=low)) if how == 'high first' \
            else (lambda: PSpongeLayer(low_order=low, high_order=high))
    if not fine:
        env.raises('limits out of order', ValueError, make)
        return
    layer = make()
    env.eq('limits', [layer.high_order, layer.low_order], [high, low])
    env.holds('single order', layer.is_equal_order == (high == low))
    # over existing limits
    high, low, fine = pair(1)
    new = {'high_order': high, 'low_order': low}
    if env.bool('low first again'):
        new = dict(reversed(new.items()))
    if fine:
        layer.update(new) if env.bool('dictionary') else layer.update(**new)
        env.eq('new limits', [layer.high_order, layer.low_order], [high, low])
    else:
        env.raises('new limits out of order', ValueError, lambda: layer.update(new))


def ladder(env):
    """the pairs step down from the highest to the lowest order without a gap and end at the lowest order on its own"""
    from dream.mesh import PSpongeLayer
    top = 9 if env.thorough else 6
    low, high, step = env.int('lowest', 0, top), env.int('highest', 0, top), env.int('step', 1, top)
    env.assume(low <= high)
    pairs = PSpongeLayer.get_pairs_of_polynomial_orders(high, low, step)
    env.eq('starts at the highest order', pairs[0][0], high)
    env.eq('ends at the lowest order', list(pairs[-1]), [low, low])
    for (h, l), (nh, _) in zip(pairs, pairs[1:]):
        env.eq('continues where the layer before ends', nh, l)
    for h, l in pairs[:-1]:
        env.lt('steps down', l, h)
        env.le('not further than the step', h - l, step)
        if l != low:
            env.eq('by the whole step', h - l, step)
        env.le('stays above the lowest order', low, l)
    for h, l in pairs:
        PSpongeLayer(high_order=h, low_order=l)
    env.holds('valid layers', True)


def row(env):
    """row of cells, some of which belong to sub-layers"""
    from dream.mesh import DomainConditions, PSpongeLayer, SpongeLayer
    n = env.choose('cells', [2, 3] + ([4] if env.thorough else []))
    names = ['a', 'ab', 'b', 'aba'][:n]
    p = env.choose('order', list(range(4 if env.thorough else 3)))
    mesh = env.strip(names)
    dcs = DomainConditions(mesh, [PSpongeLayer, SpongeLayer])
    kind = [env.choose(f"layer {m}", [None] + list(range(p + 1))) for m in names]
    joined = n > 1 and kind[0] == kind[1] and kind[0] is not None and env.bool('one pattern')
    done = set()
    for i, (m, h) in enumerate(zip(names, kind)):
        if h is None or i in done:
            continue
        pattern = m
        if i == 0 and joined:
            pattern, done = 'a|ab', {1}
        dcs[pattern] = PSpongeLayer(high_order=h, low_order=env.choose(f"low {m}", [0, h]) if h and i == 0 else 0)
    if None in kind and env.bool('plain sponge'):
        dcs[names[kind.index(None)]] = SpongeLayer()
    return mesh, dcs, names, kind, p


def sizes(mesh, p, n):
    """degrees of freedom of a cell of each order"""
    import ngsolve as ngs
    return [len(ngs.L2(mesh, order=k).GetDofNrs(ngs.ElementId(ngs.VOL, n))) for k in range(p + 1)]


def cells(env):
    """each cell has the order of its sub-layer, the others the full order"""
    import ngsolve as ngs
    mesh, dcs, names, kind, p = row(env)
    kinds = [ngs.L2, ngs.VectorL2]
    make = env.choose('components', kinds)
    space = dcs.reduce_psponge_layers_order_elementwise(make(mesh, order=p))
    env.holds('same kind of space', isinstance(space, make))
    for i, h in enumerate(kind):
        want = sizes(mesh, p, i)[p if h is None else h] * (1 + kinds.index(make))
        got = [d for d in space.GetDofNrs(ngs.ElementId(ngs.VOL, i)) if d >= 0]
        env.eq(f"functions in {names[i]}", len(got), want)
    env.eq('functions in total', space.ndof, (1 + kinds.index(make)) * sum(sizes(mesh, p, i)[p if h is None else h] for i, h in enumerate(kind)))


def around(env, n):
    """facets and the cells next to them"""
    out = {}
    for i in range(n):
        out[env.facet('bottom', i)] = [i]
        out[env.facet('top', i)] = [i]
    out[env.facet('left')] = [0]
    out[env.facet('right')] = [n - 1]
    for i in range(n - 1):
        out[env.facet('inner', i)] = [i, i + 1]
    return out


def facets(env):
    """each facet keeps the modes up to the highest order of the sub-layers it bounds, all others keep every mode"""
    import ngsolve as ngs
    mesh, dcs, names, kind, p = row(env)
    space = dcs.reduce_psponge_layers_order_facetwise(ngs.FacetFESpace(mesh, order=p))
    total = 0
    for f, near in around(env, len(names)).items():
        orders = [kind[i] for i in near if kind[i] is not None]
        h = max(orders) if orders else p
        dofs = list(space.GetDofNrs(ngs.NodeId(ngs.EDGE, f)))
        env.eq('modes', [int(d >= 0) for d in dofs], [1] * (h + 1) + [0] * (p - h))
        total += h + 1
    env.eq('modes in total', space.ndof, total)


def solver_spaces(env):
    """the flow solver uses these orders for every unknown"""
    import ngsolve as ngs
    from dream.mesh import PSpongeLayer
    mesh, dcs, names, kind, p = row(env)
    cfg = solver(env, 2, mesh=mesh)
    viscous = env.bool('viscous')
    cfg.dynamic_viscosity = 'constant' if viscous else 'inviscid'
    mixed = env.choose('mixed', ['strain_heat', 'gradient']) if viscous else 'inactive'
    cfg.fem.order = p
    cfg.fem.mixed_method = mixed
    cfg.time = 'stationary'
    for m, h in zip(names, kind):
        if h is not None:
            cfg.dcs[m] = PSpongeLayer(high_order=h)
    fes = {}
    cfg.fem.add_finite_element_spaces(fes)
    cfg.fem.mixed_method.add_mixed_finite_element_spaces(fes)
    c = sum(sizes(mesh, p, i)[p if h is None else h] for i, h in enumerate(kind))
    f = sum(1 + max([kind[i] for i in near if kind[i] is not None] or [p]) for near in around(env, len(names)).values())
    env.eq('element unknowns', fes['U'].ndof, 4 * c)
    env.eq('facet unknowns', fes['Uhat'].ndof, 4 * f)
    if viscous:
        env.eq('mixed unknowns', fes['Q'].ndof, {'strain_heat': 5, 'gradient': 8}[mixed] * c)


def refusals(env):
    import ngsolve as ngs
    from dream.mesh import DomainConditions, PSpongeLayer
    mesh = env.strip(['a', 'ba'])
    dcs = DomainConditions(mesh, [PSpongeLayer])
    p = env.int('order', 0, 3)
    h = env.int('sponge', 0, 4)
    dcs['ba'] = PSpongeLayer(high_order=h)
    L, F = ngs.L2(mesh, order=p), ngs.FacetFESpace(mesh, order=p)
    if h > p:
        env.raises('element order above the discretisation', ValueError, lambda: dcs.reduce_psponge_layers_order_elementwise(L))
        env.raises('facet order above the discretisation', ValueError, lambda: dcs.reduce_psponge_layers_order_facetwise(F))
    env.raises('no element space', TypeError, lambda: dcs.reduce_psponge_layers_order_elementwise(F))
    env.raises('no facet space', TypeError, lambda: dcs.reduce_psponge_layers_order_facetwise(L))


def scenarios(thorough):
    return [('limits', limits), ('ladder', ladder), ('cells', cells), ('facets', facets), ('solver', solver_spaces), ('refusals', refusals)]
