"""C20 configurations: round trip, order and form independence, live parameters, refusals, ownership."""
import itertools
from props.common import *

META = {
    'bounds': 'the compressible solver configuration with every alternative of every option set; all admissible values of every numeric '
              'option (integers up to 10^6; step sizes with 0 or 3 decimals); every output handler; option groups of up to 4 dependent '
              'options in all orders; dotted, nested, keyword, item and attribute form',
    'outside': ['log handlers beyond their names', 'options that are themselves coefficient functions keep their identity, not compared '
                'symbolically', 'options of alternatives that are currently not selected are not part of an export'],
    'witness_cap': 12,
}


def positive(env, name):
    return env.real(name, positive=True)


def number(env, *a):
    return env.decimal(*a)[0]


def count(env, name, lo=1):
    return env.int(name, lo, 10**6)


def setups(env):
    """name -> list of (path, value), in an order in which they can be set one by one"""
    r = lambda n, **k: env.real(n, **k)
    return {
        'flow': lambda: [('mach_number', r('M', nonneg=True)), ('dynamic_viscosity', 'constant'),
                         ('reynolds_number', positive(env, 'Re')), ('prandtl_number', positive(env, 'Pr')),
                         ('equation_of_state.heat_capacity_ratio', r('gamma', above=1))],
        'sutherland': lambda: [('dynamic_viscosity', 'sutherland'), ('reynolds_number', positive(env, 'Re')),
                               ('dynamic_viscosity.measurement_temperature', positive(env, 'Ts')),
                               ('dynamic_viscosity.measurement_viscosity', positive(env, 'mus')),
                               ('scaling', 'acoustic'),
                               ('scaling.dimensionful_values', {'density': positive(env, 'rho'), 'temperature': positive(env, 'T')})],
        'scheme': lambda: [('riemann_solver', 'hllem'), ('riemann_solver.theta_0', positive(env, 'theta')),
                           ('fem.order', count(env, 'order', 0)), ('fem.mixed_method', 'strain_heat'), ('scaling', 'aeroacoustic')],
        'other': lambda: [('riemann_solver', 'roe'), ('linear_solver', 'pardiso'), ('fem.mixed_method', 'gradient'),
                          ('equation_of_state', 'perfect'), ('info', {'a': r('info'), 'b': 'text'})],
        'transient': lambda: [('time', 'transient'), ('time.scheme', 'bdf2'),
                              ('time.timer.interval', (r('start', nonneg=True, below=5), r('end', above=5))),
                              ('time.timer.step', number(env, 'step', env.choose('digits', [0, 3]), 0, 10)),
                              ('time.timer.t', r('t'))],
        'pseudo': lambda: [('time', 'pseudo_time_stepping'), ('time.max_time_step', positive(env, 'most')),
                           ('time.increment_at', count(env, 'at')), ('time.increment_factor', count(env, 'factor')),
                           ('time.scheme', 'bdf2'), ('time.timer.step', number(env, 'step', env.choose('digits', [0, 3]), 0, 10))],
        'solver': lambda: [('nonlinear_solver', 'pardiso'), ('nonlinear_solver.max_iterations', count(env, 'its')),
                           ('nonlinear_solver.convergence_criterion', positive(env, 'tol')),
                           ('nonlinear_solver.method.damping_factor', positive(env, 'damping'))],
        'optimizations': lambda: [(f"optimizations.{n}", env.bool(n)) for n in ('static_condensation',)]
        + [(f"optimizations.compile.{n}", env.bool(n)) for n in ('realcompile', 'wait', 'keep_files')]
        + [(f"optimizations.bonus_int_order.{n}", count(env, n, 0)) for n in ('vol', 'bnd', 'bbnd', 'bbbnd')],
        'streams': lambda: [('io.gfu', True), ('io.gfu.rate', count(env, 'gfu_rate')), ('io.gfu.time_level_rate', count(env, 'level_rate')),
                            ('io.gfu.filename', 'flow'), ('io.vtk', True), ('io.vtk.rate', count(env, 'vtk_rate')),
                            ('io.vtk.subdivision', count(env, 'sub', 0)), ('io.vtk.filename', 'paraview')],
        'files': lambda: [('io.ngsmesh', True), ('io.ngsmesh.filename', 'grid'), ('io.settings', True),
                          ('io.settings.pickle', env.bool('pickle')), ('io.settings.txt', env.bool('txt')),
                          ('io.settings.yaml', env.bool('yaml')), ('io.settings.filename', 'options'), ('io.log.filename', 'log')],
        'folders': lambda: [('io.folders', env.choose('kind', ['single', 'benchmark'])), ('io.folders.root', '/somewhere/else'),
                            ('io.folders.states', 'a'), ('io.folders.vtk', 'b/c'), ('io.folders.settings', '/another/d')],
        'sensor': lambda: [('io.sensor', True), ('io.sensor.mode', 'a'), ('io.sensor.to_csv', env.bool('csv')),
                           ('io.sensor.filename', 'probe')],
    }


SETUPS = ['flow', 'sutherland', 'scheme', 'other', 'transient', 'pseudo', 'solver', 'optimizations', 'streams', 'files', 'folders', 'sensor']
CANONICAL = {'perfect': 'ideal', 'ie': 'implicit_euler', 'pseudo': 'pseudo_time_stepping', 'lf': 'lax_friedrich', 'euler': 'inviscid'}
ALTERNATIVES = [('fem', ['conservative']), ('fem.method', ['hdg']), ('fem.mixed_method', ['inactive', 'strain_heat', 'gradient']),
                ('equation_of_state', ['ideal', 'perfect']), ('dynamic_viscosity', ['inviscid', 'euler', 'constant', 'sutherland']),
                ('scaling', ['aerodynamic', 'acoustic', 'aeroacoustic']),
                ('riemann_solver', ['upwind', 'lax_friedrich', 'lf', 'roe', 'hll', 'hllem']),
                ('time', ['stationary', 'transient', 'pseudo_time_stepping', 'pseudo']), ('linear_solver', ['umfpack', 'pardiso']),
                ('nonlinear_solver', ['umfpack', 'pardiso']), ('nonlinear_solver.method', ['newton']),
                ('io.folders', ['single', 'benchmark'])]
SCHEMES = ['implicit_euler', 'ie', 'bdf2']


def fresh(env, **kw):
    from dream.compressible import CompressibleFlowSolver
    return CompressibleFlowSolver(env.strip(), **kw)


def walk(cfg, path):
    for p in path.split('.'):
        cfg = getattr(cfg, p)
    return cfg


def assign(cfg, path, value):
    *head, last = path.split('.')
    setattr(walk(cfg, '.'.join(head)) if head else cfg, last, value)


def set_all(cfg, pairs):
    for p, v in pairs:
        assign(cfg, p, v)


def plain(v):
    """value of an option as it appears in an export"""
    import ngsolve as ngs
    import pathlib
    from dream.config import UniqueConfiguration
    if isinstance(v, UniqueConfiguration):
        return v.name
    if isinstance(v, ngs.Parameter):
        return v.Get()
    return str(v) if isinstance(v, pathlib.Path) else v


def same(env, label, a, b):
    import ngsolve as ngs
    from dream.config import ngsdict
    if isinstance(a, (ngsdict, dict)) or isinstance(b, (ngsdict, dict)):
        if not (env.holds(f"{label} is a collection", isinstance(a, (ngsdict, dict)) and isinstance(b, (ngsdict, dict)))
                and env.holds(f"{label} has the same entries", sorted(map(str, a)) == sorted(map(str, b)))):
            return
        for k in a:
            same(env, f"{label}: {k}", a[k], b[k])
    elif isinstance(a, (tuple, list)):
        if env.holds(f"{label} has the same length", isinstance(b, (tuple, list)) and len(a) == len(b)):
            for i, (x, y) in enumerate(zip(a, b)):
                same(env, f"{label}[{i}]", x, y)
    elif isinstance(a, ngs.CF) or isinstance(b, ngs.CF):
        if isinstance(a, ngs.CF) and isinstance(b, ngs.CF):
            env.eq(label, env.value(a), env.value(b))
        else:
            env.holds(label, False)
    elif isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        env.holds(label, type(a) is type(b) and a == b, f"{a!r} against {b!r}")
    else:
        env.eq(label, a, b)


def same_tree(env, label, a, b):
    if env.holds(f"{label}: same options", sorted(a) == sorted(b), f"only one side: {sorted(set(a) ^ set(b))}"):
        for k in a:
            same(env, f"{label}: {k}", a[k], b[k])


def read_back(env, label, cfg, pairs):
    """every option that was set reads back, from the object and from its export"""
    tree = cfg.to_tree()
    final = dict(pairs)
    for p, v in final.items():
        if v is True and p.startswith('io.') and p.count('.') == 1:
            env.holds(f"{label}: {p} is active", p.split('.')[1] in cfg.io)
            env.holds(f"{label}: {p} is exported", p in tree)
            continue
        if not env.holds(f"{label}: {p} is exported", p in tree):
            continue
        if p.startswith('io.folders.'):
            import os
            v = os.path.join('/somewhere/else', v)
        elif isinstance(v, dict) and p.startswith('scaling'):
            for k, x in v.items():
                env.eq(f"{label}: {p} {k}", env.value(walk(cfg, p)[k]), x)
            continue
        v = CANONICAL.get(v, v) if isinstance(v, str) else v
        same(env, f"{label}: {p} reads back", plain(walk(cfg, p)), v)
        same(env, f"{label}: {p} in the export", tree[p], v)


def roundtrip(name):
    def fn(env):
        """an export applied to a fresh configuration reproduces every option"""
        pairs = setups(env)[name]()
        cfg = fresh(env)
        set_all(cfg, pairs)
        read_back(env, 'original', cfg, pairs)
        copy = fresh(env)
        tree = cfg.to_tree()
        how = env.choose('applied', ['update', 'keywords', 'constructor'])
        if how == 'update':
            copy.update(cfg.to_tree())
        elif how == 'keywords':
            copy.update(**cfg.to_tree())
        else:
            copy = fresh(env, **cfg.to_tree())
        same_tree(env, 'copy', tree, copy.to_tree())
        same_tree(env, 'original keeps its options', tree, cfg.to_tree())
        read_back(env, 'copy', copy, pairs)
    return fn


def sensors(env):
    """sensors are restored with their options"""
    cfg = fresh(env)
    cfg.io.sensor = True
    kinds = ['point', 'domain', 'domain_L2', 'boundary', 'boundary_L2']
    rates = {}
    for k in kinds:
        setattr(cfg.io.sensor, k, f"my_{k}")
        s = getattr(cfg.io.sensor, k)[f"my_{k}"]
        s.rate = rates[k] = count(env, f"rate_{k}")
    cfg.io.sensor.point['my_point'].points = ((env.real('px'), env.real('py')),)
    cfg.io.sensor.boundary['my_boundary'].regions = ('left', 'top')
    cfg.io.sensor.domain['my_domain'].integration_order = count(env, 'order', 0)
    tree = cfg.to_tree()
    copy = fresh(env)
    copy.update(tree)
    same_tree(env, 'copy', tree, copy.to_tree())
    for k in kinds:
        mine, theirs = getattr(cfg.io.sensor, k), getattr(copy.io.sensor, k)
        if env.holds(f"{k} is restored", list(theirs) == [f"my_{k}"]):
            new, old = theirs[f"my_{k}"], mine[f"my_{k}"]
            env.holds(f"{k} is an own sensor of the same kind", type(new) is type(old) and new is not old)
            env.eq(f"{k} rate", new.rate, rates[k])
            for opt in old:
                if opt != 'fields':
                    same(env, f"{k} {opt}", old[opt], new[opt])


GROUPS = {
    'time': lambda env: [('time', 'transient'), ('time.timer.step', number(env, 'step', 3, 0, 10)), ('time.timer.t', env.real('t')),
                         ('time.scheme', 'bdf2')],
    'flow': lambda env: [('riemann_solver', 'hllem'), ('riemann_solver.theta_0', positive(env, 'theta')),
                         ('mach_number', env.real('M', nonneg=True)), ('equation_of_state.heat_capacity_ratio', env.real('gamma', above=1))],
    'solver': lambda env: [('nonlinear_solver', 'pardiso'), ('nonlinear_solver.method.damping_factor', positive(env, 'damping')),
                           ('nonlinear_solver.method', 'newton'), ('nonlinear_solver.max_iterations', count(env, 'its'))],
    'streams': lambda env: [('io.gfu', env.choose('on', [True, 'gfu'])), ('io.gfu.rate', count(env, 'rate')),
                            ('io.vtk.rate', count(env, 'vtk_rate')), ('io.vtk', True)],
    'optimizations': lambda env: [('optimizations', 'optimizations'), ('optimizations.compile', 'compile'),
                                  ('optimizations.compile.wait', True), ('optimizations.static_condensation', True)],
}


def nested(pairs):
    """options of one option set gathered in a dictionary, keeping the order"""
    out = {}
    for p, v in pairs:
        head, _, last = p.rpartition('.')
        if head and not head.startswith('io.') and p not in out:
            out.setdefault(head, {})
            if isinstance(out[head], dict):
                out[head][last] = v
            else:
                out[p] = v
        elif p in out:
            out = {p: v, **{f"{p}.{k}": x for k, x in out.pop(p).items()}, **out}
        else:
            out[p] = v
    return out


def deep(pairs):
    """a fully nested dictionary of the leaves"""
    out = {}
    for p, v in pairs:
        d = out
        *head, last = p.split('.')
        for h in head:
            d = d.setdefault(h, {})
        d[last] = v
    return out


def orders(group):
    def fn(env):
        """the same options in any order and form give the same configuration"""
        pairs = GROUPS[group](env)
        base = fresh(env)
        set_all(base, sorted(pairs, key=lambda p: p[0].count('.')))
        want = base.to_tree()
        form = env.choose('form', ['dotted', 'keywords', 'constructor', 'grouped', 'items', 'one_by_one'])
        perms = list(itertools.permutations(pairs))
        order = list(perms[env.choose('order', range(len(perms)))])
        cfg = fresh(env)
        if form == 'dotted':
            given = dict(order)
            cfg.update(given)
            env.holds('the given options are left alone', list(given) == [p for p, _ in order])
        elif form == 'keywords':
            cfg.update(**dict(order))
        elif form == 'constructor':
            cfg = fresh(env, **dict(order))
        elif form == 'grouped':
            given = nested(order)
            cfg.update(given)
        else:
            order.sort(key=lambda p: p[0].count('.'))
            for p, v in order:
                if form == 'one_by_one':
                    cfg.update({p: v})
                else:
                    node = cfg
                    *head, last = p.split('.')
                    for h in head:
                        node = node[h]
                    node[last] = v
        same_tree(env, form, want, cfg.to_tree())
        read_back(env, form, cfg, order)
    return fn


def leaves(env):
    """several levels given as nested dictionaries, mixed with dotted names"""
    cfg = fresh(env)
    cfg.time = 'transient'
    step, t, damping = number(env, 'step', 3, 0, 10), env.real('t'), positive(env, 'damping')
    its, vol, M = count(env, 'its'), count(env, 'vol', 0), env.real('M', nonneg=True)
    pairs = [('time.timer.step', step), ('time.timer.t', t), ('nonlinear_solver.method.damping_factor', damping),
             ('nonlinear_solver.max_iterations', its), ('optimizations.bonus_int_order.vol', vol), ('mach_number', M)]
    form = env.choose('form', ['deep', 'deep reversed', 'mixed', 'attribute'])
    if form == 'deep':
        cfg.update(deep(pairs))
    elif form == 'deep reversed':
        cfg.update(deep(pairs[::-1]))
    elif form == 'mixed':
        given = {'time.timer.t': t, 'time': {'timer': {'step': step}}, 'nonlinear_solver.method.damping_factor': damping,
                 'nonlinear_solver': {'max_iterations': its}, 'optimizations.bonus_int_order': {'vol': vol}, 'mach_number': M}
        cfg.update(given)
        env.holds('nested options of the caller are left alone', given['time'] == {'timer': {'step': step}} if not env.symbolic
                  else list(given['time']) == ['timer'] and list(given['time']['timer']) == ['step'])
    else:
        cfg.time = {'timer': {'step': step, 't': t}}
        cfg.nonlinear_solver = {'method': {'damping_factor': damping}, 'max_iterations': its}
        cfg.optimizations = {'bonus_int_order': {'vol': vol}}
        cfg.mach_number = M
    read_back(env, form, cfg, pairs)
    base = fresh(env)
    base.time = 'transient'
    set_all(base, pairs)
    same_tree(env, form, base.to_tree(), cfg.to_tree())


PARAMETERS = ['mach_number', 'reynolds_number', 'prandtl_number', 'equation_of_state.heat_capacity_ratio', 'time.timer.step', 'time.timer.t']


def handles(env):
    """a parameter handed out keeps following the option, and only that option of that configuration"""
    import ngsolve as ngs
    path = env.choose('option', PARAMETERS)
    cfg, other = fresh(env), fresh(env)
    for c in (cfg, other):
        c.time = 'transient'
        c.dynamic_viscosity = 'constant'
    p, q = walk(cfg, path), walk(other, path)
    before = q.Get()
    expression = 2 * p + ngs.CF(1)
    rest = {k: v for k, v in cfg.to_tree().items() if k != path}
    a, b = [number(env, n, 2, 0, 10) for n in 'ab']
    env.assume(a > 0)
    env.assume(b > 0)
    how = env.choose('how', ['attribute', 'dotted', 'nested', 'parameter', 'item', 'repeat'])
    for v in (a, b):
        if how == 'attribute':
            assign(cfg, path, v)
        elif how == 'dotted':
            cfg.update({path: v})
        elif how == 'nested':
            cfg.update(deep([(path, v)]))
        elif how == 'parameter':
            given = ngs.Parameter(v)
            assign(cfg, path, given)
            given.Set(77)
        elif how == 'item':
            *head, last = path.split('.')
            (walk(cfg, '.'.join(head)) if head else cfg)[last] = v
        else:
            assign(cfg, path, v)
            cfg.time = 'transient'
            cfg.equation_of_state = 'ideal'
            cfg.update({'time': 'transient'})
        env.eq('handle follows', p.Get(), v)
        env.holds('same handle', walk(cfg, path) is p)
        env.eq('expression follows', env.value(expression), 2 * v + 1)
        env.eq('export follows', cfg.to_tree()[path], v)
    p.Set(a)
    env.eq('setting the handle sets the option', walk(cfg, path).Get(), a)
    same_tree(env, 'no other option changes', rest, {k: v for k, v in cfg.to_tree().items() if k != path})
    env.eq('other configuration untouched', walk(other, path).Get(), before)
    env.holds('other configuration has its own', q is not p)


NEGATIVE, NOT_POSITIVE, NO_COUNT = (lambda env: env.real('bad', below=0), lambda env: -env.real('bad', nonneg=True),
                                    lambda env: env.int('bad', -1000, 0))


def const(v):
    return lambda env: v


INVALID = [
    ('mach_number', NEGATIVE), ('reynolds_number', NOT_POSITIVE), ('prandtl_number', NOT_POSITIVE),
    ('nonlinear_solver.convergence_criterion', NOT_POSITIVE), ('time.timer.interval', lambda env: (NEGATIVE(env), 1)),
    ('time.timer.interval', lambda env: (env.real('bad', lo=1, hi=9), 1)), ('io.gfu.rate', NO_COUNT), ('io.gfu.time_level_rate', NO_COUNT),
    ('io.vtk.rate', NO_COUNT), ('info', lambda env: env.real('bad'))] + [(p, const(v)) for p, v in [
        ('io.gfu', 'vtk'), ('io.gfu', 'nonsense'), ('io.vtk', None), ('io.log', 'gfu'), ('optimizations', 'compile'),
        ('optimizations.compile', 'nothing'), ('io', 3), ('time.scheme', 'euler'), ('time', 'bdf2')]
        + [(p, x) for p, _ in ALTERNATIVES for x in ('nonsense', 3, None)]]


def refused(env):
    """an invalid value is refused and changes nothing"""
    p, v = INVALID[env.choose('case', range(len(INVALID)))]
    v = v(env)
    cfg = fresh(env)
    cfg.time = 'transient'
    cfg.dynamic_viscosity = 'constant'
    for s in ('gfu', 'vtk'):
        setattr(cfg.io, s, True)
    cfg.mach_number = env.real('M', nonneg=True)
    before = cfg.to_tree()
    how = env.choose('how', ['attribute', 'dotted'])
    env.raises(f"{p} refuses", (ValueError, TypeError), (lambda: assign(cfg, p, v)) if how == 'attribute' else (lambda: cfg.update({p: v})))
    same_tree(env, f"after refusing {p}", before, cfg.to_tree())


def unknown(env):
    """unknown names change nothing and do not stop the others from being applied"""
    cfg, base = fresh(env), fresh(env)
    M, its = env.real('M', nonneg=True), count(env, 'its')
    names = ['mach', 'time.nothing', 'optimizations.compile.nothing', 'nothing.at.all', 'nonlinear_solver.method.nothing']
    pick = [n for n in names if env.bool(n)]
    first = env.bool('first')
    known = {'mach_number': M, 'nonlinear_solver.max_iterations': its}
    extra = {n: env.real(f"x{i}") for i, n in enumerate(pick)}
    cfg.update({**extra, **known} if first else {**known, **extra})
    base.mach_number = M
    base.nonlinear_solver.max_iterations = its
    same_tree(env, 'unknown names', base.to_tree(), cfg.to_tree())


def nodes(cfg, name=''):
    from dream.config import UniqueConfiguration
    yield name, cfg
    for k in list(cfg):
        try:
            v = cfg[k]
        except Exception:
            continue
        if isinstance(v, UniqueConfiguration):
            yield from nodes(v, f"{name}.{k}")


def owned(env, label, cfg):
    seen = list(nodes(cfg))
    env.holds(f"{label}: parts are found", len(seen) > 10)
    for n, node in seen:
        env.holds(f"{label}: {n} belongs to the solver", node.cfg is cfg)
        env.holds(f"{label}: {n} has the mesh of the solver", node.mesh is cfg.mesh)


def alternatives(env):
    """every name selects its alternative; selecting it again keeps its options; all parts belong to the solver"""
    cfg, other = fresh(env), fresh(env)
    theirs = other.to_tree()
    path, names = ALTERNATIVES[env.choose('set', range(len(ALTERNATIVES)))]
    for a, b in itertools.product(names, names):
        assign(cfg, path, a)
        env.holds(f"{path} {a}", walk(cfg, path).name == CANONICAL.get(a, a))
        cfg.update({path: b})
        now = walk(cfg, path)
        env.holds(f"{path} {a} then {b}", now.name == CANONICAL.get(b, b))
        assign(cfg, path, b)
        env.holds(f"{path} {b} again", walk(cfg, path) is now)
        owned(env, f"{path} {b}", cfg)
    same_tree(env, 'other configuration', theirs, other.to_tree())


def kept(env):
    """selecting the selected alternative again keeps its options"""
    name = env.choose('setup', ['sutherland', 'scheme', 'transient', 'pseudo', 'solver'])
    pairs = setups(env)[name]()
    cfg = fresh(env)
    set_all(cfg, pairs)
    before = cfg.to_tree()
    for p, v in before.items():
        if any(p == a for a, _ in ALTERNATIVES) or p == 'time.scheme':
            assign(cfg, p, v)
    same_tree(env, 'selected again', before, cfg.to_tree())
    for s in SCHEMES:
        if name in ('transient', 'pseudo'):
            assign(cfg, 'time.scheme', s)
            env.holds(f"scheme {s}", cfg.time.scheme.name == CANONICAL.get(s, s))
    owned(env, name, cfg)


def instances(env):
    """option sets built on their own and handed over keep their options and join the solver with all their parts"""
    from dream.time import TransientConfig, PseudoTimeSteppingConfig
    from dream.solver import Optimizations, UmfpackNonlinearSolver, Compile
    cfg, other = fresh(env), fresh(env)
    which = env.choose('kind', ['transient', 'pseudo', 'optimizations', 'solver', 'compile', 'taken', 'stream'])
    v = number(env, 'step', 3, 0, 10)
    k = count(env, 'k')
    if which in ('transient', 'pseudo'):
        part = (TransientConfig if which == 'transient' else PseudoTimeSteppingConfig)()
        part.timer.step = v
        part.scheme = 'bdf2'
        cfg.time = part
        env.holds('is used', cfg.time is part)
        read_back(env, which, cfg, [('time.timer.step', v), ('time.scheme', 'bdf2')])
    elif which == 'optimizations':
        part = Optimizations(bonus_int_order={'vol': k}, static_condensation=True)
        cfg.optimizations = part
        env.holds('is used', cfg.optimizations is part)
        read_back(env, which, cfg, [('optimizations.bonus_int_order.vol', k), ('optimizations.static_condensation', True)])
    elif which == 'solver':
        part = UmfpackNonlinearSolver(max_iterations=k)
        part.method.damping_factor = v
        cfg.nonlinear_solver = part
        env.holds('is used', cfg.nonlinear_solver is part)
        read_back(env, which, cfg, [('nonlinear_solver.max_iterations', k), ('nonlinear_solver.method.damping_factor', v)])
    elif which == 'compile':
        part = Compile(wait=True)
        cfg.update({'optimizations.compile': part})
        env.holds('is used', cfg.optimizations.compile is part)
        read_back(env, which, cfg, [('optimizations.compile.wait', True)])
    elif which == 'stream':
        for s in ('ngsmesh', 'gfu', 'settings', 'vtk', 'sensor'):
            setattr(cfg.io, s, True)
        cfg.io.gfu.rate = k
        cfg.io = cfg.io
        read_back(env, which, cfg, [('io.gfu.rate', k)])
    else:
        other.time = 'transient'
        other.time.timer.step = v
        cfg.time = other.time
        read_back(env, which, cfg, [('time', 'transient'), ('time.timer.step', v)])
    owned(env, which, cfg)


def separate(env):
    """options of one configuration never show up in another one, created before or after"""
    other = fresh(env)
    before = other.to_tree()
    cfg = fresh(env)
    name = env.choose('setup', SETUPS)
    set_all(cfg, setups(env)[name]())
    cfg.info['note'] = 1
    cfg.scaling.dimensionful_values['density'] = 7
    same_tree(env, 'existing configuration', before, other.to_tree())
    same_tree(env, 'new configuration', before, fresh(env).to_tree())
    applied = fresh(env)
    applied.update(cfg.to_tree())
    if env.holds('information is applied', applied.info.get('note') == 1):
        applied.info['own'] = 2
        applied.scaling.dimensionful_values['density'] = 9
        env.holds('applied configuration has its own information', 'own' not in cfg.info)
        env.eq('applied configuration has its own reference values', env.value(cfg.scaling.dimensionful_values['density']), 7)


def defaults(env):
    """a fresh configuration starts from the documented defaults"""
    cfg = fresh(env)
    cfg.time = 'transient'
    cfg.dynamic_viscosity = 'constant'
    want = {'mach_number': .3, 'reynolds_number': 150, 'prandtl_number': .72, 'equation_of_state.heat_capacity_ratio': 1.4, 'fem.order': 2,
            'scaling': 'aerodynamic', 'riemann_solver': 'lax_friedrich', 'fem.mixed_method': 'inactive', 'time.scheme': 'implicit_euler',
            'nonlinear_solver.max_iterations': 10, 'time.timer.interval': (0.0, 1.0)}
    tree = cfg.to_tree()
    env.holds('exported', all(k in tree for k in want))
    for k, v in want.items():
        if isinstance(v, str):
            env.holds(k, tree[k] == v)
        elif isinstance(v, tuple):
            env.holds(k, tuple(tree[k]) == v)
        else:
            env.eq(k, tree[k], v)


def saved(name):
    def fn(env):
        """the saved settings hold every option as it was, each kind of file if it is switched on"""
        import os
        from props.store import pickles
        root = env.scratch()
        pairs = setups(env)[name]()
        cfg = fresh(env)
        set_all(cfg, pairs)
        cfg.io.folders.root = root
        cfg.io.folders.settings = env.choose('folder', ['cfg', 'deep/er'] if env.thorough or name in ('flow', 'transient') else ['cfg'])
        cfg.io.settings = True
        s = cfg.io.settings
        every = ['pickle', 'txt', 'pickle txt', 'pickle yaml', 'none'] if env.thorough or name in ('flow', 'transient') else ['pickle yaml']
        kinds = env.choose('kinds', every).split()
        for k in ('pickle', 'txt', 'yaml'):
            setattr(s, k, k in kinds)
        name_ = env.choose('filename', [None, 'options'] if env.thorough or name in ('flow', 'transient') else [None])
        if name_ is not None:
            s.filename = name_
        file = os.path.join(str(cfg.io.folders.settings), s.filename)
        if 'yaml' in kinds and env.symbolic:
            import yaml
            keep, dumped = yaml.dump, {}
            yaml.dump = lambda data, file, **kw: dumped.update(data)
        with pickles(env):
            tree = {k: dict(v) if type(v) is dict else v for k, v in cfg.to_tree().items()}
            try:
                s.save_pre_time_routine()
            finally:
                if 'yaml' in kinds and env.symbolic:
                    yaml.dump = keep
            for k in ('pickle', 'txt', 'yaml'):
                env.holds(f"{k} file", os.path.exists(f"{file}.{k}") == (k in kinds))
            if 'txt' in kinds:
                text = open(f"{file}.txt").read().split('\n')
                lines = repr(cfg).split('\n')
                env.holds('every option has its line in the text', all(x in text for x in lines) and len(lines) >= len(tree))
            if 'yaml' in kinds:
                if env.symbolic:
                    same_tree(env, 'yaml', tree, dumped)
                else:
                    import yaml
                    got = yaml.load(open(f"{file}.yaml"), Loader=yaml.UnsafeLoader)
                    same_tree(env, 'yaml', tree, got)
            if 'pickle' in kinds:
                cfg.info['later'] = 1
                cfg.nonlinear_solver.max_iterations = 77
                s.save_to_pickle('second')
                copy = fresh(env)
                copy.io.settings = True
                copy.io.folders.settings = os.path.dirname(file)
                if name_ is not None and env.bool('configured'):
                    copy.io.settings.filename = name_
                    got = copy.io.settings.load_from_pickle()
                else:
                    got = copy.io.settings.load_from_pickle(os.path.basename(file))
                same_tree(env, 'loaded', tree, got)
                again = fresh(env)
                again.update(got)
                same_tree(env, 'applied', tree, again.to_tree())
                second = copy.io.settings.load_from_pickle('second')
                env.eq('a second record holds the later value', second['nonlinear_solver.max_iterations'], 77)
            env.raises('a missing record is reported', FileNotFoundError, lambda: s.load_from_pickle('nothing'))
    return fn


def conditions(env):
    """options of conditions: every accepted form of fields means the same state, invalid values are refused"""
    import ngsolve as ngs
    import dream.compressible as D
    import dream.compressible.config as C
    kinds = {'farfield': C.FarField, 'grcbc': C.GRCBC, 'nscbc': C.NSCBC, 'outflow': C.Outflow, 'isothermal_wall': C.IsothermalWall}
    kind = env.choose('kind', list(kinds))
    cls = kinds[kind]
    c, other = cls(), cls()
    env.raises('no fields are reported', ValueError, lambda: c.fields)
    rho, u, v, p, T = [env.real(n, positive=n in ('rho', 'p', 'T')) for n in ('rho', 'ux', 'uy', 'p', 'T')]
    forms = {
        'short': lambda: {'rho': rho, 'u': (u, v), 'p': p, 'T': T},
        'long': lambda: {'density': rho, 'velocity': (u, v), 'pressure': p, 'temperature': T},
        'mixed': lambda: {'rho': ngs.CF(rho), 'velocity': ngs.CF((u, v)), 'p': ngs.CF(p), 'temperature': ngs.Parameter(T)},
        'fields': lambda: D.flowfields(rho=rho, velocity=(u, v), pressure=p, T=T)}
    form = env.choose('form', list(forms) + ['scalar'])
    if form == 'scalar':
        if kind not in ('outflow', 'isothermal_wall'):
            env.raises('a number is no state', TypeError, lambda: setattr(c, 'fields', p))
            env.raises('nothing was set', ValueError, lambda: c.fields)
            env.stop()
        given, want = (p, {'pressure': p}) if kind == 'outflow' else (T, {'temperature': T})
        if env.bool('as function'):
            given = ngs.CF(given)
    else:
        given, want = forms[form](), {'density': rho, 'velocity': [u, v], 'pressure': p, 'temperature': T}
    how = env.choose('how', ['attribute', 'keyword', 'update', 'item'])
    if how == 'attribute':
        c.fields = given
    elif how == 'keyword':
        c = cls(fields=given)
    elif how == 'update':
        c.update({'fields': given})
    else:
        c['fields'] = given
    f = c.fields
    if env.holds('fields of a flow', isinstance(f, D.flowfields)) and env.holds('given quantities', sorted(f) == sorted(want)):
        for k, x in want.items():
            env.eq(k, env.value(f[k]), x)
        short = {'density': 'rho', 'velocity': 'u', 'pressure': 'p', 'temperature': 'T'}
        for k in short:
            env.holds(f"{k} under its symbol", getattr(f, short[k]) is f.get(k, None))
        if form == 'fields':
            given['density'] = 77
            env.eq('the condition keeps its own fields', env.value(f['density']), rho)
    env.raises('another condition has its own fields', ValueError, lambda: other.fields)
    if kind in ('grcbc', 'nscbc'):
        names = ['acoustic_in', 'entropy', 'vorticity_0', 'vorticity_1', 'acoustic_out']
        k = [env.real(f"k{i}") for i in range(5)]
        which = env.choose('factor', ['scalar', 'list', 'dict', 'default'])
        if which == 'scalar':
            c.relaxation_factor, want = k[0], dict.fromkeys(names, k[0])
        elif which == 'list':
            c.relaxation_factor, want = k, dict(zip(names, k))
        elif which == 'dict':
            c.relaxation_factor, want = dict(zip(names[::-1], k[::-1])), dict(zip(names, k))
        else:
            want = dict.fromkeys(names, .28)
        got = c.relaxation_factor
        if env.holds('waves', list(got) == names):
            for n in names:
                env.eq(n, got[n], want[n])
        t = env.choose('target', ['farfield', 'OUTFLOW', 'mass_inflow', 'Temperature_Inflow'])
        c.target = t
        env.holds('target', c.target == t.lower())
        env.raises('unknown target', ValueError, lambda: setattr(c, 'target', 'inflow'))
        env.holds('is left alone', c.target == t.lower())
        c.tangential_relaxation = k[1]
        env.eq('tangential relaxation', env.value(c.tangential_relaxation), k[1])
        env.holds('other condition keeps its defaults', other.target == 'farfield' and all(x == .28 for x in other.relaxation_factor.values()))


def scenarios(thorough):
    return [(f"roundtrip_{n}", roundtrip(n)) for n in SETUPS] + [('sensors', sensors), ('conditions', conditions)] \
        + [(f"saved_{n}", saved(n)) for n in SETUPS if n != 'folders'] \
        + [(f"orders_{g}", orders(g)) for g in GROUPS] \
        + [('leaves', leaves), ('handles', handles), ('refused', refused), ('unknown', unknown), ('alternatives', alternatives),
           ('kept', kept), ('instances', instances), ('separate', separate), ('defaults', defaults)]
