"""C34 what is shown (vtk output, drawings) is the current solution."""
import contextlib
from props.common import *
from props.tiny import classes, put, get, step_script

META = {
    'bounds': 'rows of three cells in two or three domains with names that contain each other; solutions with any value in each cell at each of up to '
              'two steps (four iterations in pseudo-time), stationary, transient and pseudo-time runs; sets of up to four fields out of the solution, '
              'expressions of it, functions of space, constants and the clock, in any order; every region pattern; rates 1 to 3; changes of fields, region and '
              'subdivision between two runs; drawings made before the run, between steps or never',
    'outside': ['the format of the vtk files (written by NGSolve)', 'rendering', 'notebooks'],
    'witness_cap': 16,
}
DOMAINS = ('a', 'ab', 'c')
CELLS = 3


class Shown:
    """stand-ins for NGSolve's vtk writer and drawings that record what they are shown"""

    def __init__(self, observe):
        self.observe = observe
        self.written, self.writers, self.scenes, self.redrawn, self.blocking = [], [], [], [], []

    @contextlib.contextmanager
    def active(self):
        import ngsolve as ngs
        log = self

        class VTKOutput:
            def __init__(self, ma=None, coefs=(), names=(), filename='vtkout', subdivision=0, **kw):
                self.args = dict(ma=ma, coefs=list(coefs), names=list(names), filename=filename, subdivision=subdivision)
                log.writers.append(self.args)

            def Do(self, time=-1, vb=ngs.VOL, drawelems=None, **kw):
                log.written.append((self.args, time, None if drawelems is None else [bool(b) for b in drawelems],
                                    [log.observe(c) for c in self.args['coefs']]))

        class Scene:
            def __init__(self, cf, mesh, name, **kw):
                self.cf, self.mesh, self.name, self.options = cf, mesh, name, kw
                log.scenes.append(self)

            def Redraw(self, *a, **kw):
                log.redrawn.append((self, log.observe(self.cf)))
        keep = ngs.VTKOutput, ngs.Draw, ngs.Redraw
        ngs.VTKOutput, ngs.Draw = VTKOutput, Scene
        ngs.Redraw = lambda *a, **k: log.blocking.append((a, k))
        try:
            yield self
        finally:
            ngs.VTKOutput, ngs.Draw, ngs.Redraw = keep


def configuration(env, kind, steps, domains=DOMAINS):
    """(configuration, states the solution takes)"""
    mesh = env.strip(materials=domains)
    env.scratch()
    cfg = classes()['cfg'](mesh)
    cfg.time = kind
    cfg.nonlinear_solver = 'scripted'
    cfg.optimizations.compile.realcompile = False
    cfg.start = vec(env, 's0', CELLS) + [0] * CELLS
    states = [cfg.start[:CELLS]]
    for k in range(steps):
        states.append(vec(env, f"s{k + 1}", CELLS))
    at = [0]

    def script(s):
        k = at[0] = at[0] + 1
        put(s.du, [states[k - 1][i] - states[k][i] for i in range(CELLS)] + [0] * CELLS)
        s.is_converged = k == steps if kind.startswith('pseudo') else True
    cfg.script = script
    cfg.nonlinear_solver.max_iterations = steps if kind.startswith('pseudo') else 1
    if kind == 'transient':
        cfg.time.timer.interval, cfg.time.timer.step = (0, steps + .5), 1
    cfg.initialize()
    return cfg, states


def pool(env, cfg):
    """name -> (function, value on cell k in a state at a time)"""
    import ngsolve as ngs
    u = cfg.gfus['U']
    c = env.real('c')
    fields = {
        'u': (u, lambda s, t, k: s[k]),
        'square': (u * u + ngs.x, lambda s, t, k: s[k] * s[k] + k + .3),
        'U': (ngs.CF((u, 2 * u)), lambda s, t, k: [s[k], 2 * s[k]]),
        'constant': (c, lambda s, t, k: c),
    }
    if cfg.time.name == 'transient':
        fields['clock'] = (cfg.time.timer.t, lambda s, t, k: t)
    return fields


def observer(env):
    return lambda cf: [env.value(cf, None, (k + .3, .4), region=k, element=k) for k in range(CELLS)]


def same(env, name, got, want):
    env.eq(name, got if isinstance(want, list) else [got], want if isinstance(want, list) else [want])


def record(env, cfg, label, entry, names, fields, state, t, region, subdivision, domains):
    import os
    args, time, elements, values = entry
    env.holds(f"{label}: mesh", args['ma'] is cfg.mesh)
    env.holds(f"{label}: names", args['names'] == list(names))
    env.holds(f"{label}: folder", os.path.relpath(str(args['filename'])) == 'vtk/tiny')
    env.holds(f"{label}: subdivision", args['subdivision'] == subdivision)
    env.holds(f"{label}: values", len(values) == len(names))
    for n, value in zip(names, values):
        for k in range(CELLS):
            same(env, f"{label}: {n} in cell {k}", value[k], fields[n][1](state, t, k))
    inside = [region is None or d in region.split('|') for d in domains]
    env.holds(f"{label}: elements", (elements is None and all(inside)) or elements == inside)


def subsets(env, fields):
    names = [('u',), ('constant', 'U', 'square', 'u'), ('square', 'u'), ('U',)]
    if 'clock' in fields:
        names.append(('clock', 'u'))
    return env.choose('fields', names)


def put_vtk(cfg, names, fields, region, subdivision, switch=True):
    if switch:
        cfg.io.vtk = True
    cfg.io.vtk.filename = 'tiny'
    cfg.io.vtk.fields = {n: fields[n][0] for n in names}
    cfg.io.vtk.region = region
    cfg.io.vtk.subdivision = subdivision


def vtk(kind):
    def fn(env):
        steps = 1 if kind == 'stationary' else 2
        domains = env.choose('domains', [DOMAINS, ('a', 'ab', 'a')])
        cfg, states = configuration(env, kind, steps, domains)
        fields = pool(env, cfg)
        names = subsets(env, fields)
        region = env.choose('region', [None, 'a', 'ab', 'a|ab'] + ['c'] * (domains == DOMAINS))
        rate, subdivision = env.choose('rate, subdivision', [(1, 2), (2, 0), (3, 2)])
        put_vtk(cfg, names, fields, region, subdivision)
        cfg.io.vtk.rate = rate
        log = Shown(observer(env))
        with log.active():
            cfg.solve()
        env.holds('one writer', len(log.writers) == 1)
        shown = [0, 1, 2] if kind == 'transient' and rate == 1 else [0, steps]
        env.holds('records', len(log.written) >= 2 if kind == 'pseudo' else len(log.written) == len(shown))
        for i, entry in enumerate(log.written):
            k = shown[min(i, len(shown) - 1)]
            record(env, cfg, f"record {i}", entry, names, fields, states[k], k, region, subdivision, domains)
            if kind == 'transient':
                env.eq(f"record {i}: time", entry[1], k)
    return fn


def again(env):
    """a second run shows what is configured then"""
    cfg, states = configuration(env, 'stationary', 2)
    fields = pool(env, cfg)
    log = Shown(observer(env))
    choices = []
    for run in range(2):
        names = env.choose(f"fields {run}", [('u', 'square'), ('square',)])
        region = env.choose(f"region {run}", [None, 'a', 'ab|c'])
        subdivision = env.choose(f"subdivision {run}", [1, 3])
        put_vtk(cfg, names, fields, region, subdivision, switch=run == 0 or env.bool('switched on again'))
        first = len(log.written)
        with log.active():
            cfg.solve()
        for i, entry in enumerate(log.written[first:]):
            record(env, cfg, f"run {run}, record {i}", entry, names, fields, states[run + min(i, 1)], 0, region, subdivision, DOMAINS)
        env.holds('two records', len(log.written) == first + 2)


def nothing(env):
    """without fields there is nothing to write: refused before the run"""
    cfg, states = configuration(env, env.choose('kind', ['stationary', 'transient', 'pseudo']), 1)
    cfg.io.vtk = True
    if env.bool('emptied'):
        cfg.io.vtk.fields = {'u': cfg.gfus['U']}
        cfg.io.vtk.fields = env.choose('empty', [None, {}])
    log = Shown(observer(env))
    with log.active():
        env.raises('refused', ValueError, cfg.solve)
    env.holds('nothing written', not log.written and not log.writers)
    env.eq('the state is kept', get(cfg.gfu.vec)[:CELLS], states[0])


def drawn(kind):
    def fn(env):
        """each scene shows its field, and follows the solution after every step, in pseudo-time in every iteration and at the end"""
        steps = 2
        cfg, states = configuration(env, kind, steps)
        fields = pool(env, cfg)
        names = subsets(env, fields)
        when = env.choose('drawn', ['before', 'never', 'between'] if kind == 'transient' else ['before', 'never'])
        options = env.choose('options', [{}, {'max': 2.0, 'autoscale': False}])
        log = Shown(observer(env))

        def draw():
            cfg.io.draw({n: fields[n][0] for n in names}, **options)
            env.holds('scenes', [s.name for s in log.scenes] == list(names))
            for s in log.scenes:
                env.holds('mesh', s.mesh is cfg.mesh)
                env.holds('options', s.options == options)
        with log.active():
            if when == 'before':
                draw()
                env.holds('nothing redrawn yet', not log.redrawn)
            done = 0
            for _ in cfg.time.start_solution_routine():
                done += 1
                if when == 'between' and done == 1:
                    draw()
        rounds = len(log.redrawn) // len(names)
        if kind == 'pseudo':        # every iterate from the start on, at last the solution reached
            shown = [min(i, steps) for i in range(rounds)]
            env.holds('redrawn in every iteration', rounds == 0 if when == 'never' else rounds > steps)
        else:
            shown = {'before': [1, 2], 'never': [], 'between': [1, 2]}[when]
        env.holds('redrawn after every step', [(s.name) for s, _ in log.redrawn] == list(names) * len(shown))
        env.holds('views refreshed', len(log.blocking) == len(shown))
        for i, (scene, values) in enumerate(log.redrawn):
            k = shown[i // len(names)]
            for c in range(CELLS):
                same(env, f"redraw {i}: {scene.name} in cell {c}", values[c], fields[scene.name][1](states[k], k, c))
    return fn


def replaced(env):
    """drawing again replaces the scenes; fields of a solver are drawn under their names"""
    cfg, states = configuration(env, 'transient', 1)
    fields = pool(env, cfg)
    log = Shown(observer(env))
    with log.active():
        cfg.io.draw({'u': fields['u'][0], 'square': fields['square'][0]})
        cfg.io.draw({'U': fields['U'][0]})
        log.blocking.clear()
        blocking = env.bool('blocking')
        cfg.io.redraw(blocking)
    env.holds('only the last', [s.name for s, _ in log.redrawn] == ['U'])
    env.holds('views refreshed', log.blocking in ([((blocking,), {})], [((), {'blocking': blocking})]))
    for k in range(CELLS):
        same(env, f"cell {k}", log.redrawn[0][1][k], fields['U'][1](states[0], 0, k))




def flow(env):
    """flow quantities are shown under their names"""
    import ngsolve as ngs
    from dream.compressible import flowfields
    cfg, states = configuration(env, 'stationary', 1)
    u = cfg.gfus['U']
    given = {'rho': u, 'velocity': ngs.CF((u, 2 * u)), 'p': 3 * u, 'extra': u * u}
    want = {'density': lambda a: a, 'velocity': lambda a: [a, 2 * a], 'pressure': lambda a: 3 * a, 'extra': lambda a: a * a}
    log = Shown(observer(env))
    cfg.io.vtk = True
    cfg.io.vtk.fields = flowfields(**given)
    with log.active():
        cfg.io.draw(cfg.io.vtk.fields)
        cfg.solve()
        cfg.io.redraw()
    env.holds('scenes', [s.name for s in log.scenes] == list(want))
    for entry, state in zip(log.written, states):
        env.holds('names', entry[0]['names'] == list(want))
        for value, at in zip(entry[3], want.values()):
            for k in range(CELLS):
                same(env, 'value', value[k], at(state[k]))
    for (_, value), at in zip(log.redrawn, want.values()):
        for k in range(CELLS):
            same(env, 'drawn value', value[k], at(states[1][k]))
    env.holds('all shown', len(log.written) == 2 and len(log.redrawn) == 4)


def scenarios(thorough):
    return ([(f"vtk-{k}", vtk(k)) for k in ('stationary', 'transient', 'pseudo')] + [('again', again), ('nothing', nothing)] +
            [(f"drawn-{k}", drawn(k)) for k in ('transient', 'pseudo')] + [('replaced', replaced), ('flow', flow)])
