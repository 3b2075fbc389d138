"""C17 pseudo-time stepping."""
from props.common import *
from props.tiny import tiny, put, get

META = {
    'bounds': 'up to 5 iterations (thorough 8); all initial steps>0, maximal steps>0, increment factors 1 to 10^6, increments every 1 to 4 '
              '(thorough 6) iterations, iteration limits and convergence at any iteration; implicit Euler and BDF2; a second run with other '
              'steps, limits or rules',
    'outside': ['increment factors below one', 'longer runs (the step of an iteration follows from the step before it and the iteration '
                                                'number)'],
}


def growth(scheme):
    def run(env):
        """the step of every iteration follows the rule, and is the one the form uses"""
        most = 8 if env.thorough else 5
        n = env.choose('converged_after', range(1, most + 1))
        limit = env.choose('limit', range(most + 1))
        every = env.choose('every', range(1, 7 if env.thorough else 5))
        factor = env.int('factor', 1, 10**6)
        s0 = env.real('step', positive=True)
        top = env.real('max', positive=True)
        seen, tested, dirty = [], [], []
        q = vec(env, 'q', 2)

        def script(s):
            put(s.du, [0, 0])
            seen.append(s.cfg.time.timer.step.Get())
            tested.append(env.applied(s.cfg, s.cfg.received[0], q)[0])
            s.is_converged = len(seen) == n
        cfg = tiny(env, 'pseudo_time_stepping', [0, 0], script)
        cfg.time.scheme = scheme

        def terms(blf, lf):
            pass
        cfg.terms = terms
        cfg.time.increment_at = every
        cfg.time.increment_factor = factor
        cfg.time.max_time_step = top
        cfg.time.timer.step = s0
        cfg.nonlinear_solver.max_iterations = limit
        env.eq('maximal step is set', cfg.time.max_time_step, top)
        cfg.initialize()
        ends = list(cfg.time.start_solution_routine())
        env.holds('one result', len(ends) == 1)
        env.holds('ends when converged or at the limit', len(seen) == min(n, limit))
        want = s0
        for it, (got, form) in enumerate(zip(seen, tested)):
            if it and it % every == 0 and want < top:
                want = want * factor
                if want > top:
                    want = top
            env.eq(f"step {it}", got, want)
            env.eq('the form uses this step', form * got, q[0] * (1.5 if scheme == 'bdf2' else 1))
            if s0 <= top:
                env.le('never past the limit', got, top)
            env.le('never shrinks', seen[it - 1] if it else s0, got)
    return run


def resumed(env):
    """a second run goes on from the step that was reached or the one set since, by the rules set since"""
    seen, tested = [], []
    q = vec(env, 'q', 2)
    n = env.choose('iterations', [1, 3, 4])

    def script(s):
        put(s.du, [0, 0])
        seen[-1].append(s.cfg.time.timer.step.Get())
        tested[-1].append(env.applied(s.cfg, s.cfg.received[0], q)[0])
        s.is_converged = len(seen[-1]) == n
    cfg = tiny(env, 'pseudo_time_stepping', [0, 0], script)
    cfg.time.scheme = env.choose('scheme', ['implicit_euler', 'bdf2'])

    def terms(blf, lf):
        pass
    cfg.terms = terms
    want = cfg.time.timer.step = env.real('step', positive=True)
    top = cfg.time.max_time_step = env.real('max', positive=True)
    every = cfg.time.increment_at = 2
    factor = cfg.time.increment_factor = env.int('factor', 1, 1000)
    changed = env.choose('changed', ['nothing', 'step', 'limit', 'every', 'factor', 'initialised'])
    cfg.initialize()
    for run in range(2):
        if run and changed == 'step':
            want = cfg.time.timer.step = env.real('step_2', positive=True)
        elif run and changed == 'limit':
            top = cfg.time.max_time_step = env.real('max_2', positive=True)
        elif run and changed == 'every':
            every = cfg.time.increment_at = 3
        elif run and changed == 'factor':
            factor = cfg.time.increment_factor = env.int('factor_2', 1, 1000)
        elif run and changed == 'initialised':
            cfg.initialize()
        seen.append([])
        tested.append([])
        env.holds('one result', len(list(cfg.time.start_solution_routine())) == 1)
        env.holds('iterations', len(seen[-1]) == n)
        for it, (got, form) in enumerate(zip(seen[-1], tested[-1])):
            if it and it % every == 0 and want < top:
                want = want * factor
                if want > top:
                    want = top
            env.eq(f"step {it} of run {run}", got, want)
            env.eq('the form uses this step', form * got, q[0] * (1.5 if cfg.time.scheme.name == 'bdf2' else 1))


def options(env):
    cfg = tiny(env, 'pseudo_time_stepping')
    t = cfg.time
    env.eq('defaults', [t.max_time_step, t.increment_at, t.increment_factor], [1.0, 10, 10])
    a, b, c = env.real('max', positive=True), env.int('every', 1, 1000), env.int('factor', 1, 1000)
    how = env.choose('how', ['attributes', 'update', 'mapping'])
    if how == 'attributes':
        t.max_time_step, t.increment_at, t.increment_factor = a, b, c
    elif how == 'update':
        t.update(max_time_step=a, increment_at=b, increment_factor=c)
    else:
        cfg.time = {'max_time_step': a, 'increment_at': b, 'increment_factor': c}
    env.eq('values', [t.max_time_step, t.increment_at, t.increment_factor], [a, b, c])


def scenarios(thorough):
    return [('growth_implicit_euler', growth('implicit_euler')), ('growth_bdf2', growth('bdf2')), ('resumed', resumed), ('options', options)]
