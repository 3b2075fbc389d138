"""C29 resources of the output during a run."""
import os
import shutil
from props.common import *
from props.tiny import tiny, put, get
from props.recorder import Recorder

META = {
    'bounds': 'all 32 subsets of mesh, settings, state, vtk and sensor output; stationary, pseudo-time and transient runs of 0 to 2 steps; '
              'runs that end normally, are abandoned, or fail in any solve; all saving rates; a second run after the first, with any stream switched on or off in between',
    'outside': ['failures of the operating system while writing'],
    'witness_cap': 16,
}
STREAMS = ['ngsmesh', 'settings', 'gfu', 'vtk', 'sensor']


class Broken(Exception):
    pass


def configuration(env, kind, n, fails=None):
    count = []

    def script(s):
        count.append(1)
        if fails is not None and len(count) == fails:
            raise Broken()
        put(s.du, [1, 1])
        s.is_converged = True
    env.scratch()
    cfg = tiny(env, kind, [0, 0], script)
    if kind == 'transient':
        cfg.time.timer.interval = (0, n + .5)
        cfg.time.timer.step = 1
    on = {s: env.bool(s) for s in STREAMS}
    for s, flag in on.items():
        setattr(cfg.io, s, flag)
    if on['gfu']:
        cfg.io.gfu.rate = env.choose('gfu_rate', [1, 2])
    if on['vtk']:
        cfg.io.vtk.rate = env.choose('vtk_rate', [1, 2])
    if on['sensor']:
        for name in ('one', 'two'):
            cfg.io.sensor.point = name
            cfg.io.sensor.point[name].points = ((.5, .5),)
    cfg.initialize()
    if on['vtk']:
        cfg.io.vtk.fields = {'u': cfg.gfus['U']}
    if on['sensor']:
        for s in cfg.io.sensor.point.values():
            s.fields = {'u': cfg.gfus['U']}
    return cfg, on


def released(env, rec, on, runs=1):
    env.holds('row files', len(rec.files) == (2 * runs if on['sensor'] else 0))
    env.holds('row files are closed', all(f.closed for f in rec.files))
    env.holds('vtk writers', len(rec.writers) == (runs if on['vtk'] else 0))
    env.holds('vtk writers are released', all(w() is None for _, w in rec.writers))


def only_enabled(env, rec, on):
    pickles = {e[1] for e in rec.of('pickle')}
    env.holds('mesh', ('mesh.pickle' in pickles) == on['ngsmesh'])
    env.holds('settings', ('cfg/settings.pickle' in pickles) == on['settings'])
    env.holds('no other pickle', pickles <= {'mesh.pickle', 'cfg/settings.pickle'})
    env.holds('states', bool(rec.of('gfu')) == on['gfu'])
    env.holds('vtk', bool(rec.of('vtk')) == on['vtk'])
    env.holds('rows', bool(rec.of('csv')) == on['sensor'])
    have = {d for d in ('states', 'vtk', 'sensors', 'cfg') if os.path.exists(d)}
    env.holds('folders', have <= {d for d, s in (('states', 'gfu'), ('vtk', 'vtk'), ('sensors', 'sensor'), ('cfg', 'settings')) if on[s]})
    env.holds('settings text', os.path.exists('cfg/settings.txt') == on['settings'])


def run(kind):
    def fn(env):
        n = env.choose('steps', [0, 1, 2]) if kind == 'transient' else 1
        cfg, on = configuration(env, kind, n)
        rec = Recorder(lambda: get(cfg.gfu.vec))
        with rec.active():
            steps = 0
            for t in cfg.time.start_solution_routine():
                steps += 1
                env.holds('row files are open', not any(f.closed for f in rec.files) and len(rec.files) == (2 if on['sensor'] else 0))
                env.holds('vtk writer is there', all(w() is not None for _, w in rec.writers) and len(rec.writers) == on['vtk'])
                if steps == 1:
                    only_enabled(env, rec, on)
            env.holds('steps', steps == n)
        only_enabled(env, rec, on)
        released(env, rec, on)
        env.holds('single records are written once', len(rec.of('pickle')) == on['ngsmesh'] + on['settings'])
    return fn


def again(env):
    """a second run opens and closes its own"""
    cfg, on = configuration(env, env.choose('kind', ['transient', 'stationary']), 1)
    rec = Recorder()
    with rec.active():
        for k in (1, 2):
            cfg.solve()
            released(env, rec, on, k)


def toggled(env):
    """streams switched on or off between two runs"""
    first = env.choose('first', STREAMS)
    second = env.choose('second', STREAMS + ['none'])

    def script(s):
        put(s.du, [1, 1])
        s.is_converged = True
    env.scratch()
    cfg = tiny(env, 'transient', [0, 0], script)
    cfg.time.timer.interval, cfg.time.timer.step = (0, 1.5), 1
    cfg.initialize()

    def switch(name, value):
        setattr(cfg.io, name, value)
        if value and name == 'vtk':
            cfg.io.vtk.fields = {'u': cfg.gfus['U']}
        if value and name == 'sensor':
            for k in ('one', 'two'):
                cfg.io.sensor.point = k
                cfg.io.sensor.point[k].points = ((.5, .5),)
                cfg.io.sensor.point[k].fields = {'u': cfg.gfus['U']}
    switch(first, True)
    rec = Recorder()
    with rec.active():
        cfg.solve()
    only_enabled(env, rec, {s: s == first for s in STREAMS})
    released(env, rec, {s: s == first for s in STREAMS})
    shutil.rmtree(os.path.join(os.getcwd(), {'ngsmesh': 'nothing', 'settings': 'cfg', 'gfu': 'states', 'vtk': 'vtk', 'sensor': 'sensors'}[first]),
                  ignore_errors=True)
    keep = env.bool('keep')
    if second != first:
        switch(first, keep)
        if second != 'none':
            switch(second, True)
        on = {s: s == second or (keep and s == first) for s in STREAMS}
    else:
        switch(first, keep)
        on = {s: keep and s == first for s in STREAMS}
    rec = Recorder()
    with rec.active():
        cfg.solve()
    only_enabled(env, rec, on)
    released(env, rec, on)


def failing(kind):
    def fn(env):
        """nothing stays open when the solver fails or the run is abandoned"""
        n = 2 if kind == 'transient' else 1
        at = env.choose('fails_in', range(1, n + 1))
        abandoned = env.bool('abandoned')
        cfg, on = configuration(env, kind, n, None if abandoned else at)
        rec = Recorder()
        with rec.active():
            if abandoned:
                g = cfg.time.start_solution_routine()
                for _ in range(at):
                    next(g)
                g.close()
            else:
                env.raises('failure is passed on', Broken, cfg.solve)
        released(env, rec, on)
        only_enabled(env, rec, on)
    return fn


def switched(env):
    """a stream switched off again does nothing"""
    on = env.choose('stream', STREAMS)
    n = 1

    def script(s):
        put(s.du, [1, 1])
        s.is_converged = True
    env.scratch()
    cfg = tiny(env, 'transient', [0, 0], script)
    cfg.time.timer.interval, cfg.time.timer.step = (0, n + .5), 1
    setattr(cfg.io, on, True)
    setattr(cfg.io, on, False)
    cfg.initialize()
    rec = Recorder()
    with rec.active():
        cfg.solve()
    off = {s: False for s in STREAMS}
    only_enabled(env, rec, off)
    released(env, rec, off)


def scenarios(thorough):
    kinds = ['stationary', 'transient', 'pseudo_time_stepping']
    return [(f"run_{k}", run(k)) for k in kinds] + [(f"failing_{k}", failing(k)) for k in kinds] + [('again', again), ('toggled', toggled), ('switched', switched)]
