"""C14 the simulation clock."""
from props.common import *

META = {
    'bounds': 'interval starts, ends and steps that are decimals between 0 and 10 (0.001 to 10 for steps) with up to 3 fractional digits, '
              'every float rounding of them up to one unit in the last place of 10; up to 4 steps (thorough 8), strides 1 to 3, with and '
              'without the start, ends that need not be a multiple of the step away from the start',
    'outside': ['steps without a short decimal representation', 'longer runs'],
}


def timer(env):
    cfg = solver(env)
    cfg.time = 'transient'
    return cfg.time.timer


def configured(env, most, digits):
    tm = timer(env)
    a, A = env.decimal('start', env.choose('start_digits', digits))
    h, H = env.decimal('step', env.choose('step_digits', digits))
    b, B = env.decimal('end', env.choose('end_digits', digits))
    env.assume(0 < H)
    n = env.choose('steps', range(most + 1))
    env.assume(A < B)
    env.assume(A + n * H <= B)
    env.assume(B < A + (n + 1) * H)
    if env.bool('step_first'):
        tm.step = h
        tm.interval = (a, b)
    else:
        tm.interval = (a, b)
        tm.step = h
    return tm, A, H, n


def expected(A, H, n, first, stride):
    return [A + i * H for i in range(0 if first else stride, n + 1, stride)]


def shows(env, label, tm, t):
    d = env.num(tm.t) - t
    env.lt(label, d, 1e-9)
    env.lt(label, -1e-9, d)


def walk(env, label, tm, iterator, want):
    got = []
    for t in iterator:
        if len(got) == len(want):
            env.fail(f"{label}: no further instant")
            return
        shows(env, f"{label}: clock", tm, t)
        got.append(t)
        # whatever is left in the clock meanwhile, the next instant is that of the interval
        tm.t = -7.0
    env.holds(f"{label}: all instants", len(got) == len(want))
    for t, w in zip(got, want):
        env.same_number(f"{label}: instant", t, w)


def visits(digits):
    def run(env):
        tm, A, H, n = configured(env, 8 if env.thorough else 4, digits)
        want = expected(A, H, n, False, 1)
        walk(env, 'run', tm, tm(), want)
        walk(env, 'again', tm, tm(), want)
    return run


def selections(digits):
    def run(env):
        tm, A, H, n = configured(env, 7 if env.thorough else 4, digits)
        stride = env.choose('stride', [1, 2, 3])
        first = env.bool('include_start')
        walk(env, 'selection', tm, tm.start(first, stride), expected(A, H, n, first, stride))
    return run


def array(env):
    tm, A, H, n = configured(env, 3, [0, 2])
    stride = env.choose('stride', [1, 2])
    first = env.bool('include_start')
    got = list(tm.to_array(first, stride))
    want = expected(A, H, n, first, stride)
    env.holds('length', len(got) == len(want))
    for t, w in zip(got, want):
        env.same_number('instant', t, w)
    plain = [list(tm.to_array()), list(tm.start()), list(tm())]
    want = expected(A, H, n, False, 1)
    for got in plain:
        env.holds('every step after the start unless told otherwise', len(got) == len(want))
        for t, w in zip(got, want):
            env.same_number('instant', t, w)
    got = list(tm.to_array(include_start=True))
    env.holds('with the start', len(got) == n + 1)
    for t, w in zip(got, expected(A, H, n, True, 1)):
        env.same_number('instant', t, w)


def refusals(env):
    tm = timer(env)
    lo, hi = env.real('old_start', lo=0, hi=5), env.real('old_end', lo=0, hi=5)
    env.assume(lo < hi)
    tm.interval = (lo, hi)
    a, b = env.real('start', lo=-5, hi=5), env.real('end', lo=-5, hi=5)
    def assign():
        tm.interval = (a, b)
    if a < 0 or b < 0 or a >= b:
        env.raises('refused', ValueError, assign)
        env.eq('unchanged', list(tm.interval), [lo, hi])
    else:
        assign()
        env.eq('taken', list(tm.interval), [a, b])


def restart(env):
    """changing the step or the interval afterwards gives the instants of the new choice"""
    tm, A, H, n = configured(env, 2, [1])
    for t in tm():
        pass
    a, A2 = env.decimal('start2', 2)
    h, H2 = env.decimal('step2', 3)
    env.assume(0 < H2)
    m = env.choose('steps2', [1, 2])
    b, B = env.decimal('end2', 1, hi=30)
    env.assume(A2 + m * H2 <= B)
    env.assume(B < A2 + (m + 1) * H2)
    tm.interval = (a, b)
    tm.step = h
    want = [A2 + (i + 1) * H2 for i in range(m)]
    walk(env, 'second', tm, tm.start(), want)


def scenarios(thorough):
    out = []
    for d in (0, 1, 2, 3):
        out.append((f"visits_{d}", visits([d])))
        out.append((f"selections_{d}", selections([d])))
    out += [('visits_mixed', visits([0, 2])), ('visits_mixed3', visits([1, 3])), ('selections_mixed', selections([0, 1])),
            ('array', array), ('refusals', refusals), ('restart', restart)]
    return out
