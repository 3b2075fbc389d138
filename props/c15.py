"""C15 time schemes and their history."""
from props.common import *
from props.tiny import tiny, put, get

META = {
    'bounds': 'implicit Euler and BDF2 of the flow solver in 2 and 3 dimensions; all states, histories, test values, steps>0 and polynomials in '
              'time up to the order of the scheme; histories over up to 4 steps (thorough 7) of any states with one or two iterations per step; '
              'transient and pseudo-time runs; a second initialisation (also with another scheme or initial state) and a second run',
    'outside': ['longer runs (the update of one step does not depend on the number of steps before)'],
}
SCHEMES = {'implicit_euler': 1, 'bdf2': 2}


def polynomial(env, order, dt, k, comps):
    """values of polynomials of the given degree at the last k+1 instants (newest last), and the derivative at the newest"""
    t = env.real('time')
    vals = [[] for _ in range(k + 1)]
    ders = []
    for i in range(comps):
        a = [env.real(f"a{i}_{j}") for j in range(order + 1)]
        for level in range(k + 1):
            s = t - (k - level) * dt
            p, q = 0, 1
            for c in a:
                p = p + c * q
                q = q * s
            vals[level].append(p)
        d, q = 0, 1
        for j, c in enumerate(a[1:], 1):
            d = d + j * c * q
            q = q * t
        ders.append(d)
    return vals, ders


def flow(env, scheme, dim):
    g = gas(env)
    cfg = solver(env, dim, g)
    cfg.time = env.choose('kind', ['transient', 'pseudo_time_stepping'])
    cfg.time.scheme = scheme
    cfg.dynamic_viscosity = 'inviscid'
    cfg.fem = 'conservative'
    cfg.fem.order = 0
    cfg.mach_number = 0.3
    cfg.riemann_solver = 'lax_friedrich' if dim == 3 else 'upwind'
    if dim == 2 and env.bool('waves_absorbed'):
        from dream.compressible import GRCBC, flowfields
        cfg.bcs['left'] = GRCBC(fields=flowfields(rho=1, u=(1, 0), p=1))
    return g, cfg


def temporal(env, cfg):
    from vlib.forms import build
    f = build(env, cfg)
    f.blf, f.lf = {}, {}
    with env.recording(None):
        cfg.time.initialize()
        cfg.time.add_symbolic_temporal_forms(f.blf, f.lf)
    return f


def derivative(scheme):
    def run(env):
        """the temporal form tests the exact time derivative of polynomials"""
        dim = env.choose('dim', [2, 3])
        g, cfg = flow(env, scheme, dim)
        f = temporal(env, cfg)
        dt = env.real('dt', positive=True)
        cfg.time.timer.step = dt
        levels = cfg.time.scheme.time_levels
        vals, ders = polynomial(env, SCHEMES[scheme], dt, len(levels) - 1, dim + 2)
        U, V = cfg.TnT['U']
        test = vec(env, 'v', dim + 2)
        b = {U: vals[-1], V: test}
        for level, v in zip(levels[:-1], vals):
            b[cfg.time.scheme.gfus['U'][level]] = v
        env.eq('tested derivative', f.total(('cell', 'default'), b), dot(ders, test))
        env.holds('newest level is the solution', cfg.time.scheme.gfus['U'][levels[-1]] is cfg.gfus['U'])
    return run


def constants(scheme):
    def run(env):
        dim = env.choose('dim', [2, 3])
        g, cfg = flow(env, scheme, dim)
        f = temporal(env, cfg)
        cfg.time.timer.step = env.real('dt', positive=True)
        U, V = cfg.TnT['U']
        q = vec(env, 'q', dim + 2)
        b = {U: q, V: vec(env, 'v', dim + 2)}
        for level in cfg.time.scheme.time_levels[:-1]:
            b[cfg.time.scheme.gfus['U'][level]] = q
        env.eq('no derivative', f.total(('cell', 'default'), b), 0)
    return run


def relation(scheme):
    def run(env):
        """time step and combined old level give the same derivative: (u - level)/step"""
        g, cfg = flow(env, scheme, 2)
        from dream.compressible import GRCBC, flowfields
        cfg.bcs['left'] = GRCBC(fields=flowfields(rho=1, u=(1, 0), p=1))
        cfg.initialize_finite_element_spaces()
        cfg.initialize_trial_and_test_functions()
        cfg.initialize_gridfunctions()
        cfg.set_boundary_conditions()
        cfg.time.initialize()
        dt = env.real('dt', positive=True)
        cfg.time.timer.step = dt
        sch = cfg.time.scheme
        name = env.choose('variable', ['U', 'Uhat'])
        levels = sch.time_levels
        vals, ders = polynomial(env, SCHEMES[scheme], dt, len(levels) - 1, 4)
        normalized = env.bool('normalized')
        b = {sch.gfus[name][l]: v for l, v in zip(levels[:-1], vals)}
        level = env.value(sch.get_current_level(name, normalized), b)
        step = env.num(sch.get_time_step(normalized))
        lead = 1 if normalized or scheme == 'implicit_euler' else 3
        env.eq('same derivative', [lead * u - l for u, l in zip(vals[-1], level)], [step * d for d in ders])
    return run


def history(scheme, kind):
    def run(env):
        """at every step the solver sees the previous states in order; the state passed on is the one just computed"""
        steps = (7 if env.thorough else 4)
        n = env.choose('steps', range(1, steps + 1))
        q0 = vec(env, 'q', 2)
        updates = [vec(env, f"d{k}_", 2) for k in range(n)]
        many = env.bool('two_iterations')
        seen, state = [], [list(q0)]
        damping = env.real('damping', positive=True)

        def script(s):
            k = len(seen)
            sch = s.cfg.time.scheme
            if s.first:
                seen.append([{l: get(g.vec) for l, g in sch.gfus[v].items()} for v in ('U', 'Uhat')])
                state.append(list(state[-1]))
            k = len(seen) - 1
            for j, v in enumerate(('U', 'Uhat')):
                for l in sch.time_levels[:-1]:
                    env.eq('history is fixed during the step', get(sch.gfus[v][l].vec), seen[k][j][l])
            put(s.du, updates[k] if s.first else [x * 3 for x in updates[k]])
            state[-1] = [x - damping * (d if s.first else 3 * d) for x, d in zip(state[-1], updates[k])]
            s.is_converged = not (many and s.first)
            s.first = s.is_converged
        cfg = tiny(env, 'transient', q0, script)
        cfg.time.scheme = scheme
        cfg.time.timer.interval = (0, n)
        cfg.time.timer.step = 1
        cfg.initialize()
        cfg.nonlinear_solver.method.damping_factor = damping
        cfg.nonlinear_solver.first = True
        count = 0
        depth = len(cfg.time.scheme.time_levels) - 1
        for t in cfg.time.start_solution_routine():
            past = lambda i: state[max(0, count - i)]
            for v in (0, 1):
                got = seen[count][v]
                want = {l: past(depth - 1 - i) for i, l in enumerate(cfg.time.scheme.time_levels[:-1])}
                for l, w in want.items():
                    env.eq(f"level {l} during the step", got[l][0], w[v])
                env.eq('iteration starts from the last state', got['n+1'][0], past(0)[v])
            count += 1
            env.eq('state after the step', get(cfg.gfu.vec), state[count])
            for i, l in enumerate(cfg.time.scheme.time_levels[:-1]):
                for j, v in enumerate(('U', 'Uhat')):
                    env.eq(f"level {l} after the step", cfg.time.scheme.gfus[v][l].vec[0], past(depth - 1 - i)[j])
        env.holds('as many solves as steps', count == n and len(seen) == n)
    return run


def pseudo(scheme):
    def run(env):
        """every pseudo-time iteration is one step from the state before it"""
        n = env.choose('iterations', [1, 2, 3, 4])
        q0 = vec(env, 'q', 2)
        updates = [vec(env, f"d{k}_", 2) for k in range(n)]
        seen, state = [], [list(q0)]

        def script(s):
            k = len(seen)
            seen.append([{l: get(g.vec)[0] for l, g in s.cfg.time.scheme.gfus[v].items()} for v in ('U', 'Uhat')])
            put(s.du, updates[k])
            state.append([x - d for x, d in zip(state[-1], updates[k])])
            s.is_converged = k == n - 1
        cfg = tiny(env, 'pseudo_time_stepping', q0, script)
        cfg.time.scheme = scheme
        cfg.initialize()
        for t in cfg.time.start_solution_routine():
            env.holds('iterations', len(seen) == n)
        depth = len(cfg.time.scheme.time_levels) - 1
        for k, got in enumerate(seen):
            for j in (0, 1):
                for i, l in enumerate(cfg.time.scheme.time_levels):
                    env.eq(f"level {l}", got[j][l], state[max(0, k - max(0, depth - 1 - i))][j])
        env.eq('result', get(cfg.gfu.vec), state[-1])
    return run


def initial(env):
    """right after initialisation every level holds the initial state, and again after a second initialisation"""
    cfg = tiny(env, env.choose('kind', ['transient', 'pseudo_time_stepping']), vec(env, 'q', 2))
    cfg.time.scheme = env.choose('scheme', list(SCHEMES))
    cfg.initialize()
    again = env.choose('again', ['no', 'conditions', 'everything', 'other scheme'])
    if again != 'no':
        put(cfg.gfu.vec, vec(env, 'x', 2))
        cfg.start = vec(env, 'r', 2)
        if again == 'conditions':
            cfg.time.set_initial_conditions()
        else:
            if again == 'other scheme':
                cfg.time.scheme = env.choose('scheme after', list(SCHEMES))
            cfg.initialize()
    for j, v in enumerate(('U', 'Uhat')):
        levels = cfg.time.scheme.gfus[v]
        env.holds('newest level is the solution', levels['n+1'] is cfg.gfus[v] and set(levels) == set(cfg.time.scheme.time_levels))
        for l, g in levels.items():
            env.eq(f"{v} {l}", get(g.vec), [cfg.start[j]])


def restarted(scheme):
    def run(env):
        """a second run continues from where the first ended; reinitialised, from the new initial state"""
        q0, r0 = vec(env, 'q', 2), vec(env, 'r', 2)
        updates = [vec(env, f"d{k}_", 2) for k in range(4)]
        seen = []

        def script(s):
            sch = s.cfg.time.scheme
            seen.append({l: [g.vec[0] for g in (sch.gfus['U'][l], sch.gfus['Uhat'][l])] for l in sch.time_levels})
            put(s.du, updates[len(seen) - 1])
            s.is_converged = True
        cfg = tiny(env, 'transient', q0, script)
        cfg.time.scheme = scheme
        cfg.time.timer.step = 1
        cfg.initialize()
        fresh = env.bool('reinitialised')
        state = [q0]
        expect = []
        for run in range(2):
            if run and fresh:
                cfg.start = r0
                cfg.initialize()
                state = [r0]
            cfg.time.timer.interval = (0, 2) if fresh or not run else (2, 4)
            for t in cfg.time.start_solution_routine():
                depth = len(cfg.time.scheme.time_levels) - 1
                expect.append({l: state[max(0, len(state) - 1 - (depth - 1 - min(i, depth - 1)))] for i, l in enumerate(cfg.time.scheme.time_levels)})
                state.append([x - d for x, d in zip(state[-1], updates[len(expect) - 1])])
                env.eq('state after the step', get(cfg.gfu.vec), state[-1])
                env.eq('of the solution', [cfg.gfus[v].vec[0] for v in ('U', 'Uhat')], state[-1])
        env.holds('solves', len(seen) == len(expect) == 4)
        for got, want in zip(seen, expect):
            for l in want:
                env.eq(f"level {l}", got[l], want[l])
    return run


def scenarios(thorough):
    out = []
    for s in SCHEMES:
        out += [(f"derivative_{s}", derivative(s)), (f"constants_{s}", constants(s)), (f"relation_{s}", relation(s)),
                (f"history_{s}", history(s, 'transient')), (f"pseudo_{s}", pseudo(s)), (f"restarted_{s}", restarted(s))]
    return out + [('initial', initial)]
