"""C18 which records a run writes, when, and with which content."""
from props.common import *
from props.tiny import tiny, put, get
from props.recorder import Recorder

HEADER = ('point', 'region', 'field', 'component', 't')
META = {
    'bounds': 'transient runs of 0 to 4 steps (thorough 6) with any step states, all rates 1 to 50 of every stream and sensor, two '
              'intervals and three step sizes; stationary and pseudo-time runs of up to 3 iterations; every stream alone and all together; a second run with other '
              'names, rates, intervals or initial states',
    'outside': ['longer runs (writing depends on the number of the step and the rate only)', 'the contents of vtk files'],
    'witness_cap': 16,
}
TIMES = [(0.0, 0.1), (0.7, 0.25), (0.25, 3.0)]


def setup(env, kind, states):
    """a configuration whose run walks through the given states"""
    seq = iter(states[1:])

    def script(s):
        new = next(seq)
        put(s.du, [p - q for p, q in zip(get(s.cfg.gfu.vec), new)])
        s.is_converged = kind == 'transient' or len(taken) == len(states) - 2
        taken.append(new)
    taken = []
    env.scratch()
    cfg = tiny(env, kind, states[0], script)
    return cfg


def run(env, cfg, leave=None):
    rec = Recorder(lambda: get(cfg.gfu.vec))
    cfg.initialize()
    labels = []
    with rec.active():
        for t in cfg.time.start_solution_routine():
            labels.append(t)
    return rec, labels


def schedule(n, rate, times, start=True, last=True):
    """(step, label) at which a stream with this rate writes"""
    out = [(0, times[0])] if start else []
    for it in range(1, n + 1):
        if it % rate == 0:
            out.append((it, times[it]))
    if last and n and not n % rate == 0:
        out.append((n, times[n]))
    return out


def check(env, what, events, want, states, label):
    env.holds(f"{what}: number of records", len(events) == len(want), f"{len(events)} instead of {len(want)}")
    for e, (it, t) in zip(events, want):
        label(e, t)
        env.eq(f"{what}: state", e[3], states[it])


def transient(streams):
    def fn(env):
        n = env.choose('steps', range((7 if env.thorough else 5) if len(streams) == 1 else 3))
        start, h = env.choose('times', TIMES)
        states = [vec(env, f"s{k}_", 2) for k in range(n + 1)]
        cfg = setup(env, 'transient', states)
        cfg.time.timer.interval = (start, start + (n + .5 if n else .5) * h)
        cfg.time.timer.step = h
        rates = {}
        if 'vtk' in streams:
            cfg.io.vtk = True
            rates['vtk'] = cfg.io.vtk.rate = env.int('vtk_rate', 1, 50)
        if 'gfu' in streams:
            cfg.io.gfu = True
            rates['gfu'] = cfg.io.gfu.rate = env.int('gfu_rate', 1, 50)
            rates['levels'] = cfg.io.gfu.time_level_rate = env.int('level_rate', 1, 50)
        if 'sensor' in streams:
            cfg.io.sensor = True
            for k, name in enumerate(['one', 'two'] if len(streams) == 1 else ['one']):
                cfg.io.sensor.point = name
                s = cfg.io.sensor.point[name]
                rates[name] = s.rate = env.int(f"{name}_rate", 1, 50)
                s.points = ((.5, .5),)
        cfg.initialize()
        if 'vtk' in streams:
            cfg.io.vtk.fields = {'u': cfg.gfus['U']}
        if 'sensor' in streams:
            for i, s in enumerate(cfg.io.sensor.point.values()):
                s.fields = {'u': cfg.gfus['U' if i == 0 else 'Uhat']}
        rec = Recorder(lambda: get(cfg.gfu.vec))
        times = [start]
        with rec.active():
            for t in cfg.time.start_solution_routine():
                times.append(t)
        env.holds('all steps run', len(times) == n + 1)
        for i, t in enumerate(times):
            env.lt('instants', t - (start + i * h), 1e-9)
            env.lt('instants', start + i * h - t, 1e-9)
        same = lambda what: lambda got, t: env.holds(f"{what}: label", got == t, f"{got} instead of {t}")
        if 'vtk' in streams:
            want = schedule(n, rates['vtk'], times)
            check(env, 'vtk', rec.of('vtk'), want, states, lambda e, t: same('vtk')(e[2], t))
        if 'gfu' in streams:
            want = schedule(n, rates['gfu'], times)
            names = {f"states/gfu_{t}.ngs" for t in times}
            check(env, 'states', [e for e in rec.of('gfu') if e[1] in names], want, states,
                  lambda e, t: same('states')(e[1], f"states/gfu_{t}.ngs"))
            # time levels
            off = n and not n % rates['gfu'] == 0       # the state written last is always one to restart from
            most = schedule(n, rates['levels'], times, last=bool(off))
            for var, j in (('U', 0), ('Uhat', 1)):
                for level in cfg.time.scheme.time_levels:
                    ev = [e for e in rec.of('gfu') if e[1].endswith(f"_{var}_{level}.ngs")]
                    env.holds('levels: number of records', len({e[1] for e in ev}) == len(most))
                    env.holds('levels: labels', [e[1] for e in ev if True][:len(most)] ==
                              [f"states/gfu_{t}_{var}_{level}.ngs" for _, t in most])
                    for e, (it, t) in zip(ev, most):
                        env.eq('levels: state', e[3], [states[it][j]])
            env.holds('nothing else', len(rec.of('gfu')) == len(want) + sum(
                1 for e in rec.of('gfu') if any(e[1].endswith(f"_{v}_{l}.ngs") for v in ('U', 'Uhat') for l in cfg.time.scheme.time_levels)))
        if 'sensor' in streams:
            for i, name in enumerate(cfg.io.sensor.point):
                rows = [e for e in rec.of('csv', f"sensors/{name}.csv")]
                data = [e for e in rows if e[2][0] not in HEADER]
                env.holds('header comes first', rows[len(rows) - len(data):] == data)
                want = schedule(n, rates[name], times)
                check(env, 'sensor', data, want, states, lambda e, t: same('sensor')(e[2][0], t))
                for e, (it, t) in zip(data, want):
                    env.eq('sensor: value', list(e[2][1:]), [states[it][i]])
        if 'vtk' not in streams:
            env.holds('no vtk', not rec.of('vtk'))
        if 'gfu' not in streams:
            env.holds('no states', not rec.of('gfu'))
        if 'sensor' not in streams:
            env.holds('no sensors', not rec.of('csv'))
    return fn


def again(env):
    """a second run writes what is configured then"""
    n = env.choose('steps', [2, 3] if env.thorough else [2])
    states = [vec(env, f"s{k}_", 2) for k in range(2 * n + 1)]
    cfg = setup(env, 'transient', states)
    cfg.time.timer.interval = (0.0, n * .5)
    cfg.time.timer.step = .5
    stream = env.choose('stream', ['gfu', 'vtk', 'sensor', 'settings'])
    setattr(cfg.io, stream, True)
    if stream == 'sensor':
        cfg.io.sensor.point = 'one'
        cfg.io.sensor.point['one'].points = ((.5, .5),)
    cfg.initialize()
    reinitialised = env.bool('reinitialised')
    for run in range(2):
        place = 'first' if run == 0 or not env.bool('renamed') else 'second'
        interval = (0.0, 0.0 + n * .5) if run == 0 or not env.bool('continued') else (n * .5, n * 1.0)
        cfg.time.timer.interval = interval
        own = states[run * n:run * n + n + 1]
        if run and reinitialised:
            cfg.start = vec(env, 'r', 2)
            cfg.initialize()
            own = [cfg.start] + own[1:]
        if stream == 'sensor':
            s = cfg.io.sensor.point['one']
            s.fields = {'u': cfg.gfus['U']}
        else:
            s = getattr(cfg.io, stream)
            s.filename = place
        if stream == 'vtk':
            s.fields = {'u': cfg.gfus['U']}
        if stream == 'settings':
            limit = cfg.nonlinear_solver.max_iterations = 7 + run
        else:
            s.rate = rate = env.int(f"rate{run}", 1, 3)
        if stream == 'gfu':
            s.time_level_rate = 50
        rec = Recorder(lambda: get(cfg.gfu.vec))
        times = [interval[0]]
        with rec.active():
            for t in cfg.time.start_solution_routine():
                times.append(t)
        env.holds('all steps run', len(times) == n + 1)
        if stream == 'settings':
            ev = rec.of('pickle')
            env.holds('settings are written once', [e[1] for e in ev] == [f"cfg/{place}.pickle"], str([e[1] for e in ev]))
            env.eq('settings of the run', ev[0][2]['nonlinear_solver.max_iterations'], limit)
            continue
        want = schedule(n, rate, times)
        if stream == 'gfu':
            check(env, 'states', [e for e in rec.of('gfu') if e[1] in {f"states/{place}_{t}.ngs" for t in times}], want, own,
                  lambda e, t: env.holds('states: label', e[1] == f"states/{place}_{t}.ngs"))
            env.holds('nowhere else', all(e[1].startswith(f"states/{place}_") for e in rec.of('gfu')))
        elif stream == 'vtk':
            check(env, 'vtk', rec.of('vtk'), want, own, lambda e, t: env.holds('vtk: label', e[2] == t))
        else:
            data = [e for e in rec.of('csv', 'sensors/one.csv') if e[2][0] not in HEADER]
            check(env, 'sensor', data, want, own, lambda e, t: env.holds('sensor: label', e[2][0] == t))
            for e, (it, t) in zip(data, want):
                env.eq('sensor: value', list(e[2][1:]), [own[it][0]])


def steady(kind):
    def fn(env):
        """stationary and pseudo-time runs record the first state and the result"""
        n = env.choose('iterations', [1, 2, 3])
        states = [vec(env, f"s{k}_", 2) for k in range(n + 1)]
        cfg = setup(env, kind, states)
        stream = env.choose('stream', ['vtk', 'gfu', 'sensor'])
        setattr(cfg.io, stream, True)
        rate = env.int('rate', 1, 50)
        if stream == 'sensor':
            cfg.io.sensor.point = 'one'
            s = cfg.io.sensor.point['one']
            s.points, s.rate = ((.5, .5),), rate
        else:
            getattr(cfg.io, stream).rate = rate
        cfg.initialize()
        if stream == 'vtk':
            cfg.io.vtk.fields = {'u': cfg.gfus['U']}
        if stream == 'sensor':
            s.fields = {'u': cfg.gfus['U']}
        rec = Recorder(lambda: get(cfg.gfu.vec))
        with rec.active():
            ends = list(cfg.time.start_solution_routine())
        env.holds('one result', ends == [None])
        if stream == 'vtk':
            ev = rec.of('vtk')
        elif stream == 'gfu':
            name = 'states/gfu.ngs' if kind == 'stationary' else 'states/gfu_0.0.ngs'
            ev = rec.of('gfu', name)
        else:
            ev = [e for e in rec.of('csv') if e[2][0] not in HEADER]
            for e, it in zip(ev, (0, n)):
                env.eq('sensor: value', [e[2][-1]], [states[it][0]])
        env.holds('start and result', len(ev) == 2, str(len(ev)))
        for e, it in zip(ev, (0, n)):
            env.eq('state', e[3], states[it])
    return fn


def rates(env):
    """a rate is a positive number of steps"""
    cfg = tiny(env)
    which = env.choose('which', ['vtk', 'gfu', 'levels', 'sensor'])
    if which == 'sensor':
        cfg.io.sensor = True
        cfg.io.sensor.point = 'one'
        target, name = cfg.io.sensor.point['one'], 'rate'
    else:
        stream = 'gfu' if which == 'levels' else which
        setattr(cfg.io, stream, True)
        target, name = getattr(cfg.io, stream), 'time_level_rate' if which == 'levels' else 'rate'
    r = env.int('rate', -1000, 1000)
    before = getattr(target, name)
    if r <= 0:
        env.raises('refused', ValueError, lambda: setattr(target, name, r))
        env.holds('unchanged', getattr(target, name) == before)
    else:
        setattr(target, name, r)
        env.eq('rate', getattr(target, name), r)


def scenarios(thorough):
    return [('vtk', transient(('vtk',))), ('states', transient(('gfu',))), ('sensors', transient(('sensor',))),
            ('together', transient(('vtk', 'gfu', 'sensor'))), ('stationary', steady('stationary')),
            ('pseudo', steady('pseudo_time_stepping')), ('rates', rates), ('again', again)]
