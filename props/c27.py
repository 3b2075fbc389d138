"""C27 generated ring meshes are conforming and closed."""
import math

from props.common import *

META = {
    'bounds': 'all radii; 4 to 12 (thorough 20) elements in polar and every admissible even number up to 6 (thorough 10) in radial direction; geometric '
              'factors 1/2, 1, 3/2, 2 (thorough also 3)',
    'outside': ['meshes of the open cascade kernel (get_cylinder_mesh)', 'rings whose thinnest layer is within 1e-9 of folding',
                'rounding of the coordinates, which are taken to 1e-9'],
    'witness_cap': 100,
}


def layouts(env):
    n = env.choose('polar', [4, 8, 12] + ([16, 20] if env.thorough else []))
    m = env.choose('radial', [k for k in range(2, 11 if env.thorough else 7, 2) if k <= n // 2])
    return n, m


def radii(env, m):
    """radii of the rings, outer above inner"""
    g = env.choose('factor', [1, 2, .5, 1.5] + ([3] if env.thorough else []))
    ri, ro = env.real('inner', positive=True), env.real('outer')
    env.assume(ro > ri)
    return ri, ro, g, [ri + (ro - ri) * (j / m)**g for j in range(m + 1)]


def near(env, label, a, b, size):
    env.lt(label, a - b, size * 1e-9)
    env.lt(label, b - a, size * 1e-9)


def ring(env):
    """one element per half cell, all positively oriented, every inner edge shared by two, the rest named after their side"""
    from dream.mesh import get_cylinder_omesh
    n, m = layouts(env)
    ri, ro, g, r = radii(env, m)
    c = math.cos(math.pi / n)
    for a, b in zip(r, r[1:]):
        env.assume(a < b * c * (1 - 1e-9))
    names = env.choose('names', [None, ('wall', 'in', 'out')])
    mesh = get_cylinder_omesh(ri, ro, n, m, geom=g) if names is None else get_cylinder_omesh(ri, ro, n, m, g, names)
    names = names or ('cylinder', 'left', 'right')
    points, triangles, edges = env.triangulation(mesh)
    env.eq('points', len(points), n * (m + 1))
    env.eq('elements', len(triangles), 2 * n * m)
    used = {}
    for t in triangles:
        for a, b in zip(t, t[1:] + t[:1]):
            used[a, b] = used.get((a, b), 0) + 1
        (x0, y0), (x1, y1), (x2, y2) = (points[v] for v in t)
        env.lt('positively oriented', 0, (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0))
    env.holds('no edge twice on one side', max(used.values()) == 1)
    rim = {frozenset(e) for e in used if tuple(reversed(e)) not in used}
    env.holds('boundary is named once', sorted(map(sorted, rim)) == sorted(sorted(e) for e, _ in edges))
    env.holds('all points are used', {v for t in triangles for v in t} == set(range(len(points))))
    inner = [e for e, name in edges if name == names[0]]
    layer = {v for e in inner for v in e}
    env.eq('inner edges', len(inner), n)
    env.eq('outer edges', [len([e for e, name in edges if name == k]) for k in names[1:]], [n // 2, n // 2])
    seen, rings = set(), []
    while layer:
        rings.append(sorted(layer))
        seen |= layer
        layer = {b for a, b in used if a in layer} | {a for a, b in used if b in layer}
        layer -= seen
    env.eq('rings', [len(k) for k in rings], [n] * (m + 1))
    for radius, k in zip(r, rings):
        for v in k:
            x, y = points[v]
            near(env, 'on its ring', x * x + y * y, radius * radius, radius * radius)
        for a, b in used:
            if a in k and b in k:
                near(env, 'evenly spread', dot(points[a], points[b]), radius * radius * math.cos(2 * math.pi / n), radius * radius)
    for e, name in edges:
        if name != names[0]:
            env.holds('outer edges', all(v in rings[-1] for v in e))
            x = points[e[0]][0] + points[e[1]][0]
            env.lt('side', x if name == names[1] else -x, 0)


def folded(env):
    """layers too thin for the number of elements are refused"""
    from dream.mesh import get_cylinder_omesh
    n, m = layouts(env)
    ri, ro, g, r = radii(env, m)
    c = math.cos(math.pi / n)
    k = env.choose('layer', list(range(m)))
    env.assume(r[k] > r[k + 1] * c * (1 + 1e-9))
    env.raises('layer too thin', ValueError, lambda: get_cylinder_omesh(ri, ro, n, m, geom=g))


def refusals(env):
    from dream.mesh import get_cylinder_omesh
    n, m = env.choose('polar', list(range(1, 13))), env.choose('radial', list(range(1, 7)))
    fine = n % 4 == 0 and m % 2 == 0 and 2 * m <= n
    if fine:
        env.eq('accepted', len(env.triangulation(get_cylinder_omesh(1, 1000, n, m, geom=2))[1]), 2 * n * m)
    else:
        env.raises('refused', ValueError, lambda: get_cylinder_omesh(1, 1000, n, m, geom=2))


def scenarios(thorough):
    return [('ring', ring), ('folded', folded), ('refusals', refusals)]
