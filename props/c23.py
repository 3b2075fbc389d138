"""C23 linear algebra helpers agree with linear algebra."""
from props.common import *

META = {
    'bounds': 'all numbers, vectors of 1 to 7 components and matrices of up to 3 rows and columns (all real entries), given as numbers, lists, tuples, '
              'generators or coefficient functions; fixed-point iterations of affine maps with up to 4 steps (thorough: 7) and any '
              'tolerance',
    'outside': ['complex numbers', 'recognising every function that vanishes (only claimed: what is called zero is zero)'],
    'witness_cap': 40,
}


def scalar(env, name, forms=('number', 'function')):
    """(value to hand over, its number)"""
    import ngsolve as ngs
    x = env.real(name)
    return (x if env.choose(f"{name}_as", list(forms)) == 'number' else ngs.CF(x)), x


def number(env, v):
    import ngsolve as ngs
    return env.value(v)[0] if isinstance(v, ngs.CF) else v


def vector(env, name, n):
    import ngsolve as ngs
    x = vec(env, name, n)
    form = env.choose(f"{name}_as", ['list', 'tuple', 'generator', 'function'])
    return {'list': lambda: list(x), 'tuple': lambda: tuple(x), 'generator': lambda: (y for y in x),
            'function': lambda: ngs.CF(tuple(x))}[form](), x


def ordering(env):
    """absolute value, maximum, minimum and cut-off"""
    import dream.bla as bla
    (a, x), (b, y), (c, z) = (scalar(env, k) for k in 'xyz')
    r = number(env, bla.abs(a))
    env.prove('absolute value', (r >= 0) & ((r == x) | (r == -x)) if env.symbolic else r == abs(x))

    def hull(r, up, x, y):
        t = (r >= x) & (r >= y) if up else (r <= x) & (r <= y)
        return t & ((r == x) | (r == y))
    env.prove('maximum', hull(number(env, bla.max(a, b)), True, x, y))
    env.prove('minimum', hull(number(env, bla.min(a, b)), False, x, y))
    env.prove('maximum with zero', hull(number(env, bla.max(a)), True, x, 0))
    env.prove('minimum with zero', hull(number(env, bla.min(a)), False, x, 0))
    env.assume(y <= z)
    r = number(env, bla.interval(a, b, c))
    env.prove('cut-off stays in its interval', (r >= y) & (r <= z))
    env.prove('cut-off keeps what is inside', (x < y) | (x > z) | (r == x))
    env.prove('cut-off at the ends', ((x > y) | (r == y)) & ((x < z) | (r == z)))


def products(env):
    import dream.bla as bla
    n = env.choose('n', [1, 2, 3, 4])
    m = env.choose('m', [1, 2, 3])
    a, x = vector(env, 'x', n)
    v = bla.as_vector(a)
    env.holds('length of a vector', v.dim == n)
    env.eq('components of a vector', env.value(v), x)
    y = vec(env, 'y', n)
    env.eq('inner product', env.value(bla.inner(v, cf(y)))[0], dot(x, y))
    w, z = vector(env, 'z', m)
    o = bla.outer(v, w)
    env.holds('shape of the outer product', tuple(o.dims) == (n, m))
    env.eq('outer product', env.value(o), [p * q for p in x for q in z])
    d = bla.diagonal(v)
    env.holds('shape of a diagonal matrix', tuple(d.dims) == (n, n))
    env.eq('diagonal matrix', env.value(d), [x[i] if i == j else 0 for i in range(n) for j in range(n)])


def normalised(env):
    import dream.bla as bla
    n = env.choose('n', [1, 2, 3, 4])
    a, x = vector(env, 'x', n)
    q = dot(x, x)
    env.assume(q > 0)
    u = env.value(bla.unit_vector(a))
    env.eq('length one', dot(u, u), 1)
    env.eq('parallel', [u[i] * x[j] for i in range(n) for j in range(i)], [u[j] * x[i] for i in range(n) for j in range(i)])
    env.lt('same direction', 0, dot(u, x))


def matrices(env):
    import dream.bla as bla
    n = env.choose('rows', [1, 2, 3])
    m = env.choose('columns', [1, 2, 3])
    a, x = vector(env, 'x', n * m)
    if env.bool('dims') or n != m:
        M = bla.as_matrix(cf(x) if False else a, dims=(n, m)) if not hasattr(a, 'dims') else None
    else:
        M = bla.as_matrix(a) if not hasattr(a, 'dims') else None
    if M is None:
        import ngsolve as ngs
        M = ngs.CF(tuple(x), dims=(n, m))
        env.holds('a matrix stays what it is', bla.as_matrix(M) is M)
    env.holds('shape', tuple(M.dims) == (n, m))
    env.eq('entries by rows', env.value(M), x)
    env.holds('square', bla.is_symmetric(M) == (n == m))
    env.holds('matrix', bla.is_matrix(M) and not bla.is_vector(M) and not bla.is_scalar(M))
    if n == m:
        t = 0
        for i in range(n):
            t = t + x[i * n + i]
        env.eq('trace', number(env, bla.trace(M)), t)
    else:
        env.raises('trace of a rectangular matrix', ValueError, lambda: bla.trace(M))
    y = vec(env, 'y', n * m)
    import ngsolve as ngs
    env.eq('inner product of matrices', env.value(bla.inner(M, ngs.CF(tuple(y), dims=(n, m))))[0], dot(x, y))


def from_vector(env):
    """symmetric and skew-symmetric matrices from their independent entries"""
    import dream.bla as bla
    n = env.choose('n', [1, 2, 3, 4, 5, 6, 7])
    a, x = vector(env, 'x', n)
    f = env.real('factor') if env.bool('scaled') else None
    k = [] if f is None else [f]
    s = 1 if f is None else f
    if n in (3, 6):
        d = 2 if n == 3 else 3
        M = bla.symmetric_matrix_from_vector(a, *k)
        got = env.value(M)
        env.holds('shape', tuple(M.dims) == (d, d))
        env.eq('symmetric', got, [got[j * d + i] for i in range(d) for j in range(d)])
        env.eq('upper triangle by rows', [got[i * d + j] for i in range(d) for j in range(i, d)], [s * c for c in x])
    else:
        env.raises('no symmetric matrix of that size', ValueError, lambda: bla.symmetric_matrix_from_vector(a, *k))


def skew_from_vector(env):
    import dream.bla as bla
    n = env.choose('n', [0, 2, 3, 4, 5, 6, 7])
    f = env.real('factor') if env.bool('scaled') else None
    k = [] if f is None else [f]
    s = 1 if f is None else f
    if n == 0:
        a, x = scalar(env, 'x')
        d, want = 2, {(1, 0): x}
    else:
        a, x = vector(env, 'x', n)
        d, want = 3, dict(zip([(1, 0), (0, 2), (2, 1)], x))
    if n in (0, 3):
        M = bla.skewsymmetric_matrix_from_vector(a, *k)
        got = env.value(M)
        env.holds('shape', tuple(M.dims) == (d, d))
        env.eq('skew-symmetric', got, [-got[j * d + i] for i in range(d) for j in range(d)])
        env.eq('independent entries', [got[i * d + j] for i, j in want], [s * c for c in want.values()])
    else:
        env.raises('no skew-symmetric matrix of that size', ValueError, lambda: bla.skewsymmetric_matrix_from_vector(a, *k))


def kinds(env):
    """shape queries, conversions, and what they refuse"""
    import ngsolve as ngs
    import dream.bla as bla
    x, y = env.real('x'), env.real('y')
    which = env.choose('which', ['number', 'function', 'vector', 'matrix', 'zero', 'zero function', 'product with zero', 'text', 'none'])
    v = {'number': lambda: x, 'function': lambda: ngs.CF(x), 'vector': lambda: ngs.CF((x, y)), 'matrix': lambda: ngs.CF((x, y, y, x), dims=(2, 2)),
         'zero': lambda: 0, 'zero function': lambda: ngs.CF(0), 'product with zero': lambda: 0 * ngs.CF((x, y)),
         'text': lambda: 'x', 'none': lambda: None}[which]()
    env.holds('scalar', bla.is_scalar(v) == (which in ('number', 'function', 'zero', 'zero function')))
    env.holds('vector', bla.is_vector(v) == (which in ('vector', 'product with zero')))
    env.holds('matrix', bla.is_matrix(v) == (which == 'matrix'))
    env.holds('square matrix', bla.is_symmetric(v) == (which == 'matrix'))
    if which in ('number', 'function', 'zero', 'zero function'):
        s = bla.as_scalar(v)
        env.holds('scalars become functions', isinstance(s, ngs.CF))
        env.eq('of the same value', env.value(s)[0], 0 if 'zero' in which else x)
    elif which in ('text', 'none'):
        env.raises('not a scalar', NotImplementedError, lambda: bla.as_scalar(v))
        env.raises('no absolute value', NotImplementedError, lambda: bla.abs(v))
        env.raises('no maximum', NotImplementedError, lambda: bla.max(v))
        env.raises('no minimum', NotImplementedError, lambda: bla.min(v))
        env.raises('not zero or non-zero', TypeError, lambda: bla.is_zero(v))
    if which in ('number', 'zero', 'none'):
        env.raises('not a vector', NotImplementedError, lambda: bla.as_vector(v))
        env.raises('not a matrix', NotImplementedError, lambda: bla.as_matrix(v))
    if which not in ('text', 'none'):
        zero = bla.is_zero(v)
        vals = env.value(v) if isinstance(v, ngs.CF) else [v]
        if zero:
            env.eq('what is called zero is zero', vals, [0] * len(vals))
            for w in vals:
                env.prove('and not just close to it', (w <= 0) & (w >= 0))
        elif which == 'number':
            env.prove('other numbers are not zero', (x < 0) | (x > 0))
        if which in ('zero', 'zero function'):
            env.holds('zero is called zero', bool(zero))
    for n in (2, 3, 5, 6, 7, 8):
        env.raises('no square matrix of that many entries', ValueError, lambda: bla.as_matrix([x] * n))


def iteration(env):
    """repeat until two iterates differ by less than the tolerance, or the number of steps is used up"""
    import dream.bla as bla
    a, b, x, tol = env.real('a'), env.real('b'), env.real('x'), env.real('tol', positive=True)
    n = env.choose('steps', range(8 if env.thorough else 5))
    calls = []

    def f(y):
        calls.append(y)
        return a * y + b
    got = bla.fixpoint_iteration(x, f, it=n, tol=tol)
    want = x
    seq = [x]
    for k in range(n):
        seq.append(a * seq[-1] + b)
    k = len(calls)
    env.holds('steps', k <= n)
    env.eq('arguments are the iterates', calls, seq[:k])
    env.eq('result is the last iterate', got, seq[k])
    for i in range(k - 1):
        d = seq[i + 1] - seq[i]
        env.prove('goes on while the iterates change', (d >= tol) | (-d >= tol))
    if k < n:
        d = seq[k] - seq[k - 1]
        env.prove('stops when they do not', (d < tol) & (-d < tol))
    env.prove('at least one step', k > 0 or n == 0)


def fixed(env):
    """a fixed point of the map is returned as it is"""
    import dream.bla as bla
    a, x = env.real('a'), env.real('x')
    got = bla.fixpoint_iteration(x, lambda y: a * (y - x) + x)
    env.eq('fixed point', got, x)


def scenarios(thorough):
    return [('ordering', ordering), ('products', products), ('unit vectors', normalised), ('matrices', matrices),
            ('symmetric matrices', from_vector), ('skew-symmetric matrices', skew_from_vector), ('kinds', kinds),
            ('iteration', iteration), ('fixed points', fixed)]
