"""C19 loading what was saved."""
import os
from props.common import *
from props.tiny import tiny, put, get
from props.recorder import Recorder

META = {
    'bounds': 'runs of 1 to 4 steps (thorough 6) with any states; starts and steps that are decimals up to 10 with 0, 1 or 4 digits (floats '
              'with any rounding); saving rates 1 to one more than the number of steps; any one record missing; one configuration loading from several runs by name, folder and root',
    'outside': ['longer runs', 'states saved by another version of the library'],
}


def walked(env, n, states, H, A, rate, level_rate=None, scheme='implicit_euler', filename=None, end=None):
    """saves a run; returns the instants"""
    seq = iter(states[1:])

    def script(s):
        put(s.du, [p - q for p, q in zip(get(s.cfg.gfu.vec), next(seq))])
        s.is_converged = True
    cfg = tiny(env, 'transient', states[0], script)
    prepare(cfg, H, A, end, rate, scheme, filename)
    if level_rate is not None:
        cfg.io.gfu.time_level_rate = level_rate
    cfg.initialize()
    return cfg, [A] + list(cfg.time.start_solution_routine())


def prepare(cfg, h, a, end, rate, scheme, filename):
    cfg.time.scheme = scheme
    cfg.time.timer.interval = (a, end)
    cfg.time.timer.step = h
    cfg.io.gfu = True
    cfg.io.gfu.rate = rate
    if filename is not None:
        cfg.io.gfu.filename = filename


def fresh(env, h, a, end, rate, scheme='implicit_euler', filename=None):
    cfg = tiny(env, 'transient', vec(env, 'other', 2))
    prepare(cfg, h, a, end, rate, scheme, filename)
    cfg.initialize()
    return cfg


def interval(env, n):
    a, A = env.decimal('start', env.choose('start_digits', [0, 1]))
    h, H = env.decimal('step', env.choose('step_digits', [0, 1, 4]))
    env.assume(0 < H)
    end = A + n * H
    return a, h, A, H, a + n * h if env.bool('exact_end') else a + (n + .5) * h


def replayed(env):
    """a fresh configuration walks through the saved run"""
    most = 6 if env.thorough else 4
    n = env.choose('steps', range(1, most + 1))
    rate = env.choose('rate', range(1, n + 2))
    a, h, A, H, end = interval(env, n)
    name = env.choose('filename', [None, 'flow'])
    states = [vec(env, f"s{k}_", 2) for k in range(n + 1)]
    env.scratch()
    _, times = walked(env, n, states, h, a, rate, filename=name, end=end)
    if len(times) != n + 1:
        env.stop()      # the last step fell victim to the rounding of the end (C14)
    cfg = fresh(env, h, a, end, rate, filename=name)
    want = [it for it in range(1, n + 1) if it % rate == 0]
    got = 0
    for t in cfg.io.gfu.load_transient_routine():
        if got == len(want):
            env.fail('no further instant')
            return
        it = want[got]
        env.same_number('instant', t, times[it])
        env.eq('state', get(cfg.gfu.vec), states[it])
        d = env.num(cfg.time.timer.t) - (A + it * H)
        env.lt('clock', d, 1e-9)
        env.lt('clock', -1e-9, d)
        got += 1
    env.holds('all instants', got == len(want))


def single(env):
    """records are loaded by their instant"""
    n = 3
    rate = env.choose('rate', [1, 2, 3])
    states = [vec(env, f"s{k}_", 2) for k in range(n + 1)]
    start = env.choose('start', [0.0, 0.5])
    env.scratch()
    _, times = walked(env, n, states, .25, start, rate, end=start + n * .25)
    cfg = fresh(env, .25, start, start + n * .25, rate)
    it = env.choose('at', range(n + 1))
    if it % rate == 0 or it == n:
        cfg.io.gfu.load_routine(times[it])
        env.eq('state', get(cfg.gfu.vec), states[it])
    else:
        env.raises('never saved', Exception, lambda: cfg.io.gfu.load_routine(times[it]))
        env.eq('untouched', get(cfg.gfu.vec), cfg.start)


def missing(env):
    """a missing record is reported when it is reached"""
    n = 4
    rate = env.choose('rate', [1, 2])
    states = [vec(env, f"s{k}_", 2) for k in range(n + 1)]
    env.scratch()
    _, times = walked(env, n, states, .25, 0.0, rate, end=n * .25)
    saved = [it for it in range(1, n + 1) if it % rate == 0]
    gone = env.choose('missing', saved)
    os.remove(f"states/gfu_{times[gone]}.ngs")
    cfg = fresh(env, .25, 0.0, n * .25, rate)
    seen = []

    def load():
        for t in cfg.io.gfu.load_transient_routine():
            seen.append((t, get(cfg.gfu.vec)))
    env.raises('reported', Exception, load)
    before = [it for it in saved if it < gone]
    env.holds('up to the missing one', [t for t, _ in seen] == [times[it] for it in before])
    for (t, s), it in zip(seen, before):
        env.eq('state', s, states[it])


def changing(env):
    """one configuration loads the records of several runs, told apart by file name or folder, in any order"""
    n = 2
    env.scratch()
    by = env.choose('by', ['filename', 'folder', 'root'])
    kept = []
    for k, name in enumerate(('one', 'two')):
        states = [vec(env, f"{name}{i}_", 2) for i in range(n + 1)]
        seq = iter(states[1:])

        def script(s, seq=seq):
            put(s.du, [p - q for p, q in zip(get(s.cfg.gfu.vec), next(seq))])
            s.is_converged = True
        cfg = tiny(env, 'transient', states[0], script)
        prepare(cfg, .25, 0.0, n * .25, 1 + k, 'implicit_euler', None)
        cfg.io.gfu.time_level_rate = 1
        select(cfg, by, name)
        cfg.initialize()
        env.holds('instants', len(list(cfg.time.start_solution_routine())) == n)
        kept.append(states)
    cfg = fresh(env, .25, 0.0, n * .25, 1)
    order = env.choose('order', [(0, 1), (1, 0), (0, 0, 1)])
    how = env.choose('how', ['one', 'all', 'levels'])
    for k in order:
        select(cfg, by, ('one', 'two')[k])
        if how == 'one':
            cfg.io.gfu.load_routine(n * .25)
            env.eq('state', get(cfg.gfu.vec), kept[k][n])
        elif how == 'all':
            cfg.io.gfu.rate = 1 + k
            seen = []
            for t in cfg.io.gfu.load_transient_routine():
                seen.append(t)
                env.eq('state', get(cfg.gfu.vec), kept[k][int(t * 4)])
            env.holds('instants', seen == [.25 * i for i in range(1, n + 1) if i % (1 + k) == 0])
        else:
            cfg.io.gfu.load_time_levels(.25)
            for j, v in enumerate(('U', 'Uhat')):
                env.eq(v, [get(cfg.time.scheme.gfus[v][l].vec)[0] for l in cfg.time.scheme.time_levels], [kept[k][1][j]] * 2)


def select(cfg, by, name):
    if by == 'filename':
        cfg.io.gfu.filename = name
    elif by == 'folder':
        cfg.io.folders.states = name
    else:
        cfg.io.folders.root = os.path.join(os.getcwd(), name)


def levels(scheme):
    def run(env):
        """the loaded history is the one the run had, for every variable with a time derivative"""
        most = 4 if env.thorough else 3
        n = env.choose('steps', range(1, most + 1))
        lr = env.choose('level_rate', range(1, n + 1))
        states = [vec(env, f"s{k}_", 2) for k in range(n + 1)]
        env.scratch()
        run, times = walked(env, n, states, .25, 0.0, env.choose('rate', [1, 2]), lr, scheme, end=n * .25)
        at = env.choose('at', [it for it in range(n + 1) if it % lr == 0])
        cfg = fresh(env, .25, 0.0, n * .25, 1, scheme)
        cfg.io.gfu.load_time_levels(times[at])
        names = cfg.time.scheme.time_levels
        for j, v in enumerate(('U', 'Uhat')):
            for k, l in enumerate(reversed(names)):
                # the newest two levels of a record hold the state just computed
                past = at - max(0, k - 1)
                env.eq(f"{v} level {l}", get(cfg.time.scheme.gfus[v][l].vec), [states[max(0, past)][j]])
        env.eq('solution', get(cfg.gfu.vec), states[at])
    return run


def steady(env):
    """a stationary result is loaded by name; a transient replay of it is refused"""
    q = vec(env, 'q', 2)
    new = vec(env, 'new', 2)

    def script(s):
        put(s.du, [p - r for p, r in zip(q, new)])
        s.is_converged = True
    env.scratch()
    cfg = tiny(env, 'stationary', q, script)
    cfg.io.gfu = True
    cfg.initialize()
    cfg.solve()
    other = tiny(env, 'stationary', vec(env, 'other', 2))
    other.io.gfu = True
    other.initialize()
    other.io.gfu.load_routine()
    env.eq('state', get(other.gfu.vec), new)
    env.raises('no transient replay', ValueError, lambda: list(other.io.gfu.load_transient_routine()))
    env.raises('no time levels', ValueError, lambda: other.io.gfu.load_time_levels(0.0))


def meshes(env):
    """a saved mesh comes back with its elements, vertices and region names, by file name and folder"""
    from dream.compressible import CompressibleFlowSolver
    from props.store import pickles
    env.scratch()
    one, two = env.strip(materials=('inner', 'sponge')), env.strip(materials=('a', 'b', 'c'), left='inlet')
    name = env.choose('filename', [None, 'grid'])
    place = env.choose('root', [None, 'run'])
    cfgs = []
    for mesh in (one, two):
        cfg = CompressibleFlowSolver(mesh)
        cfg.io.ngsmesh = True
        if place is not None:
            cfg.io.folders.root = place
        cfgs.append(cfg)
    if name is not None:
        cfgs[0].io.ngsmesh.filename = name
    cfgs[1].io.ngsmesh.filename = 'second'
    order = env.choose('order', [(0, 1), (1, 0)])
    with pickles(env):
        for i in order:
            cfgs[i].io.ngsmesh.save_pre_time_routine()
        if env.bool('again'):
            cfgs[order[0]].io.ngsmesh.save_pre_time_routine()
        for i in (0, 1):
            for j in (0, 1):                    # the loading configuration may hold another mesh
                reader = CompressibleFlowSolver((one, two)[j])
                reader.io.ngsmesh = True
                if place is not None:
                    reader.io.folders.root = place
                reader.io.ngsmesh.filename = ['mesh' if name is None else name, 'second'][i]
                got, want = reader.io.ngsmesh.load_routine(), (one, two)[i]
                env.holds('domains', list(got.GetMaterials()) == list(want.GetMaterials()))
                env.holds('boundaries', list(got.GetBoundaries()) == list(want.GetBoundaries()))
                env.holds('elements', (got.ne, got.nv, got.dim) == (want.ne, want.nv, want.dim))
                if env.holds('vertices', len(list(got.vertices)) == len(list(want.vertices))):
                    env.eq('points', [x for v in got.vertices for x in v.point], [x for v in want.vertices for x in v.point])
        reader.io.ngsmesh.filename = 'nothing'
        env.raises('a missing mesh is reported', FileNotFoundError, reader.io.ngsmesh.load_routine)


def scenarios(thorough):
    return [('replayed', replayed), ('single', single), ('changing', changing), ('missing', missing), ('levels_implicit_euler', levels('implicit_euler')),
            ('levels_bdf2', levels('bdf2')), ('steady', steady), ('meshes', meshes)]
