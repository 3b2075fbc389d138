"""C28 sensor records have one value per named column and belong to their region."""
import logging
from fractions import Fraction

from props.common import *
from props.recorder import Recorder
from props.tiny import classes, get, put
from props.c22 import Heard

META = {
    'bounds': 'sensors of every kind on a mesh of 3 domains and 5 boundaries whose names are prefixes of each other, with regions by '
              'default, by pattern or by sequence (with unknown names), points given as tuples or as a boundary; sets of one or two '
              'fields out of scalars, vectors of 2 to 4 and matrices of 2x2, 2x3 and 3x3 components, each component an arbitrary '
              'polynomial of degree one with its own coefficients on every domain (integrals also of degree 2 to 8 with the order set); two instants of transient and stationary runs; a second run with other '
              'fields, places, file mode, sensors, or without files',
    'outside': ['quadrature of functions that are no polynomials', 'points on the interface of two elements', 'curved elements'],
    'witness_cap': 12,
}
HEADER = ('point', 'region', 'field', 'component', 't')
DOMAINS = ('wake', 'wake_far', 'inlet')
BOTTOM = ('wall', 'wall_in', 'wall')
FIELDS = {'p': (), 'u': (2,), 'm': (3,), 'w': (4,), 'T': (2, 2), 'R': (2, 3), 'S': (3, 3)}
QUICK = [('p',), ('u',), ('R',), ('p', 'u'), ('T', 'p'), ('w', 'm'), ('S', 'u')]
ALL = QUICK + [('m', 'p'), ('T', 'R'), ('w',), ('u', 'T'), ('p', 'q')]
AXES = 'xyz'


def labels(dims):
    if dims == ():
        return [' ']
    if len(dims) == 1:
        return [AXES[i] if dims[0] <= 3 else i for i in range(dims[0])]
    return [AXES[i] + AXES[j] for i in range(dims[0]) for j in range(dims[1])]


def size(dims):
    n = 1
    for d in dims:
        n *= d
    return n


class Field:
    """a + b x + c y with its own coefficients for each component and domain"""

    def __init__(self, env, name, dims, state):
        import ngsolve as ngs
        self.dims, self.n, self.state = dims, size(dims), state
        self.c = {m: [[env.real(f"{name}{k}_{i}_{l}") for l in range(3)] for k in range(self.n)] for i, m in enumerate(DOMAINS)}

        def on(m):
            parts = [a + b * ngs.x + c * ngs.y for a, b, c in self.c[m]]
            return parts[0] if not dims else ngs.CF(tuple(parts), dims=dims)
        self.cf = lambda mesh, s: s * mesh.MaterialCF({m: on(m) for m in DOMAINS})

    def at(self, k, m, x, y):
        a, b, c = self.c[m][k]
        return self.state() * (a + b * x + c * y)

    def segment(self, k, m, p, q):
        mid = [Fraction(s + t, 2) for s, t in zip(p, q)]
        return self.at(k, m, *mid)

    def square(self, m, p, q):
        """mean of the squared norm over the segment or, along both axes, over the unit square"""
        s = 0
        for k in range(self.n):
            v0, v1, v2 = self.at(k, m, *p), self.at(k, m, *[Fraction(a + b, 2) for a, b in zip(p, q)]), self.at(k, m, *q)
            s = s + (v0 * v0 + 4 * v1 * v1 + v2 * v2) / 6
        return s

    def cell_square(self, m, i):
        s, g = 0, self.state()
        for k in range(self.n):
            a, b, c = self.c[m][k]
            mean = a + b * (i + Fraction(1, 2)) + c / 2
            s = s + g * g * (mean * mean + (b * b + c * c) / 12)
        return s


SIDES = {}      # boundary name -> [(domain, start, end)]
for i, (m, n) in enumerate(zip(DOMAINS, BOTTOM)):
    SIDES.setdefault(n, []).append((m, (i, 0), (i + 1, 0)))
    SIDES.setdefault('top', []).append((m, (i, 1), (i + 1, 1)))
SIDES['left'] = [(DOMAINS[0], (0, 0), (0, 1))]
SIDES['right'] = [(DOMAINS[-1], (3, 0), (3, 1))]


def setup(env, transient):
    cfg = classes()['cfg'](env.strip(DOMAINS, bottom=BOTTOM))
    cfg.time = 'transient' if transient else 'stationary'
    cfg.nonlinear_solver = 'scripted'
    cfg.start, cfg.script = None, lambda s: None
    cfg.io.sensor = True
    return cfg


def record(env, cfg, rec, times, states, signal):
    with cfg.io:
        for k, (t, s) in enumerate(zip(times, states)):
            signal.Set(s)
            if k == 0:
                cfg.io.save_pre_time_routine(t)
            elif t is None:
                cfg.io.save_post_time_routine(t)
            else:
                cfg.io.save_in_time_routine(t, k)


def columns(env, rec, name, places):
    """header of a file: the cells that name each column"""
    rows = [e[2] for e in rec.of('csv', f"sensors/{name}.csv")]
    head = {r[0]: r for r in rows if r[0] in HEADER}
    data = [r for r in rows if r[0] not in HEADER]
    env.holds(f"{name}: header first", [r[0] for r in rows[:len(head)]] == list(head))
    env.holds(f"{name}: rows as long as the header", len({len(r) for r in rows}) == 1, str([len(r) for r in rows]))
    env.holds(f"{name}: names of columns", {places, 'field', 'component'} <= set(head))
    cols = list(zip(head[places][1:], head['field'][1:], head['component'][1:]))
    env.holds(f"{name}: columns differ", len(set(cols)) == len(cols))
    return cols, data


def matches(env, name, cols, data, want, states, signal, times, square=False):
    """`want`: {column: value}"""
    env.holds(f"{name}: columns", set(cols) == set(want), f"{cols} {list(want)}")
    env.holds(f"{name}: rows", len(data) == len(states))
    for row, s, t in zip(data, states, times):
        env.holds(f"{name}: time", row[0] == t if t is not None else isinstance(row[0], str))
        signal.now = s
        for c, v in zip(cols, row[1:]):
            if square:
                env.le(f"{name}: {c[1]} is a norm", 0, v)
                v = v * v
            env.eq(f"{name}: {c[1]} {c[2]}", v, want[c]())


class Signal:
    """the state of the run: every field is proportional to it"""

    def __init__(self, cfg):
        import ngsolve as ngs
        self.par = ngs.Parameter(0.0)
        self.now = None

    def Set(self, s):
        self.par.Set(s)


def start(env, fields=None, instants=None):
    transient = env.bool('transient')
    cfg = setup(env, transient)
    signal = Signal(cfg)
    names = fields or env.choose('fields', ALL if env.thorough else QUICK)
    fs = {n: Field(env, n, FIELDS.get(n, ()), lambda: signal.now) for n in names}
    states = [env.real(f"state{k}") for k in range(instants or 2)]
    times = [0.25 * k for k in range(len(states))] if transient else [None] * len(states)
    return cfg, signal, fs, states, times


def ask(env, known, tag=''):
    """regions by default, pattern or sequence: [(label as a set of regions, regions)]"""
    a, b, c = known[:3]
    how = env.choose(f"regions{tag}", ['default', 'one', 'pattern', 'sequence', 'unknown', 'unknown pattern'])
    if how == 'default':
        return None, [frozenset(known)], []
    if how == 'one':
        return a, [frozenset([a])], []
    if how == 'pattern':
        return f"{c}|{a}", [frozenset([a, c])], []
    if how == 'sequence':
        return (b, a) if env.bool('tuple') else [b, a], [frozenset([b]), frozenset([a])], []
    if how == 'unknown':
        return ('nowhere', b, a[:-1]), [frozenset([b])], ['nowhere', a[:-1]]
    return f"{b}|nowhere", [frozenset([b])], ['nowhere']


def regional(kind):
    def fn(env):
        cfg, signal, fs, states, times = start(env)
        domain, square = kind.startswith('domain'), kind.endswith('L2')
        regions, groups, unknown = ask(env, DOMAINS if domain else ('wall', 'wall_in', 'top', 'left', 'right'))
        cfg.io.sensor[kind] = 'probe'
        s = cfg.io.sensor[kind]['probe']
        s.fields = {n: f.cf(cfg.mesh, signal.par) for n, f in fs.items()}
        if regions is not None:
            s.regions = regions
        rec = Recorder()
        heard, log = Heard(), logging.getLogger('dream')
        keep, level = log.handlers[:], logging.root.manager.disable
        logging.disable(logging.NOTSET)
        log.handlers[:] = [heard]
        try:
            with rec.active():
                record(env, cfg, rec, times, states, signal)
        finally:
            log.handlers[:] = keep
            logging.disable(level)
        env.holds('unknown regions are reported', bool(heard.text) == bool(unknown)
                  and all(any(u in t for t in heard.text) for u in unknown), str(heard.text))
        cols, data = columns(env, rec, 'probe', 'region')
        cols = [(frozenset(r.split('|')), f, c) for r, f, c in cols]

        def value(f, k, g):
            def cell():
                return sum((f.cell_square(m, DOMAINS.index(m)) if square else
                            f.at(k, m, Fraction(2 * DOMAINS.index(m) + 1, 2), Fraction(1, 2)) for m in g), 0)

            def sides():
                return sum((f.square(*side) if square else f.segment(k, *side) for r in g for side in SIDES[r]), 0)
            return cell if domain else sides
        want = {(g, n, c): value(f, k, g) for g in groups for n, f in fs.items()
                for k, c in enumerate(['L2'] if square else labels(f.dims))}
        matches(env, 'probe', cols, data, want, states, signal, times, square)
    return fn


def points(env):
    """values at points, given one by one or as the vertices of a boundary"""
    cfg, signal, fs, states, times = start(env)
    if env.bool('boundary'):
        name = env.choose('name', ['left', 'right'])
        x = 0 if name == 'left' else 3
        given, where = name, {(x, 0): DOMAINS[0 if not x else -1], (x, 1): DOMAINS[0 if not x else -1]}
    else:
        given = env.choose('points', [((.5, .25),), ((1.5, .5), (.5, .5)), ((2.75, 0), (.25, 1), (1.25, .75))])
        where = {p: DOMAINS[int(p[0])] for p in given}
    cfg.io.sensor.point = 'probe'
    s = cfg.io.sensor.point['probe']
    s.fields = {n: f.cf(cfg.mesh, signal.par) for n, f in fs.items()}
    s.points = given
    rec = Recorder()
    with rec.active():
        record(env, cfg, rec, times, states, signal)
    cols, data = columns(env, rec, 'probe', 'point')
    cols = [(tuple(p[:2]), f, c) for p, f, c in cols]
    want = {(p, n, c): (lambda f=f, k=k, p=p, m=m: f.at(k, m, Fraction(p[0]), Fraction(p[1])))
            for p, m in where.items() for n, f in fs.items() for k, c in enumerate(labels(f.dims))}
    matches(env, 'probe', cols, data, want, states, signal, times)


KINDS = ['point', 'domain', 'domain_L2', 'boundary', 'boundary_L2']


def orders(env):
    """integrals are those of the field up to the order of the sensor"""
    import ngsolve as ngs
    transient = env.bool('transient')
    cfg = setup(env, transient)
    kind = env.choose('kind', KINDS[1:])
    half = kind.endswith('L2')
    order, degree = env.choose('order', [(None, 2), (8, 4)] if half else [(None, 5), (3, 3), (8, 8)])
    a, b = env.real('a'), env.real('b')
    cfg.io.sensor[kind] = 'probe'
    s = cfg.io.sensor[kind]['probe']
    s.fields = {'p': a + b * ngs.x**degree}
    if order is not None:
        s.integration_order = order
    s.regions = 'wake_far' if kind.startswith('domain') else 'wall_in'        # both are above 1 < x < 2
    moment = lambda n: Fraction(2**(n + 1) - 1, n + 1)
    rec = Recorder()
    with rec.active():
        with cfg.io:
            cfg.io.save_pre_time_routine(0.0 if transient else None)
    rows = [e[2] for e in rec.of('csv', 'sensors/probe.csv') if e[2][0] not in HEADER]
    env.holds('one value', len(rows) == 1 and len(rows[0]) == 2)
    v = rows[0][1]
    if half:
        env.eq('norm', v * v, a * a + 2 * a * b * moment(degree) + b * b * moment(2 * degree))
    else:
        env.eq('integral', v, a + b * moment(degree))


def several(env):
    """sensors of different kinds, fields and regions do not mix; each names its file"""
    cfg, signal, fs, states, times = start(env, ('p', 'u'), 1)
    first, second = env.choose('first', KINDS), env.choose('second', KINDS)
    probes = [('one', first, 'p'), ('two', second, 'u')]
    want = {}
    for name, kind, field in probes:
        cfg.io.sensor[kind] = name
        s = cfg.io.sensor[kind][name]
        f = fs[field]
        s.fields = {field: f.cf(cfg.mesh, signal.par)}
        ks = list(enumerate(labels(f.dims)))
        if kind == 'point':
            p, m = ((.5, .5), DOMAINS[0]) if name == 'one' else ((2.5, .5), DOMAINS[2])
            s.points = (p,)
            want[name] = {(p, field, c): (lambda f=f, k=k, p=p, m=m: f.at(k, m, *map(Fraction, p))) for k, c in ks}
        elif kind.startswith('domain'):
            i = 0 if name == 'one' else 1
            s.regions = m = DOMAINS[i]
            want[name] = {(m, field, 'L2'): lambda f=f, m=m, i=i: f.cell_square(m, i)} if kind.endswith('L2') else {
                (m, field, c): (lambda f=f, k=k, m=m, i=i: f.at(k, m, Fraction(2 * i + 1, 2), Fraction(1, 2))) for k, c in ks}
        else:
            s.regions = r = 'left' if name == 'one' else 'right'
            side = SIDES[r][0]
            want[name] = {(r, field, 'L2'): lambda f=f, side=side: f.square(*side)} if kind.endswith('L2') else {
                (r, field, c): (lambda f=f, k=k, side=side: f.segment(k, *side)) for k, c in ks}
    rec = Recorder()
    with rec.active():
        record(env, cfg, rec, times, states, signal)
    env.holds('one file each', {e[1] for e in rec.of('csv')} == {'sensors/one.csv', 'sensors/two.csv'})
    for name, kind, _ in probes:
        cols, data = columns(env, rec, name, 'point' if kind == 'point' else 'region')
        cols = [(tuple(p[:2]) if kind == 'point' else p, f, c) for p, f, c in cols]
        matches(env, name, cols, data, want[name], states, signal, times, kind.endswith('L2'))


def place(kind, s, i):
    """the i-th place of a sensor: (label of its column, value of component k of a field)"""
    if kind == 'point':
        p = (.5 + i, .25)
        s.points = (p,)
        return p, lambda f, k: f.at(k, DOMAINS[i], Fraction(p[0]), Fraction(p[1]))
    if kind.startswith('domain'):
        s.regions = DOMAINS[i]
        if kind.endswith('L2'):
            return DOMAINS[i], lambda f, k: f.cell_square(DOMAINS[i], i)
        return DOMAINS[i], lambda f, k: f.at(k, DOMAINS[i], Fraction(2 * i + 1, 2), Fraction(1, 2))
    s.regions = r = ('left', 'right')[i]
    side = SIDES[r][0]
    return r, lambda f, k: f.square(*side) if kind.endswith('L2') else f.segment(k, *side)


def solution(kind):
    def fn(env):
        """the solution itself is a field: its values in the cells of the place sampled"""
        cfg = setup(env, env.bool('transient'))
        cfg.initialize()
        u = cfg.gfus['U']
        t = 0.0 if cfg.time.name == 'transient' else None
        cfg.io.sensor[kind] = 'probe'
        s = cfg.io.sensor[kind]['probe']
        fields = {'u': (u, lambda a: a), 'f': (2 * u * u + 1, lambda a: 2 * a * a + 1)}
        s.fields = {n: f for n, (f, _) in fields.items()}
        where, cells = env.choose('place', {'point': [(((.5, .5),), (0,)), (((2.5, .25),), (2,))], 'domain': [('wake', (0,)), (DOMAINS[1:], (1, 2))]}.get(
            kind.split('_')[0], [('right', (2,)), (('left', 'wall_in'), (0, 1))]))
        if kind == 'point':
            s.points = where
        else:
            s.regions = where
        rec = Recorder()
        values = []
        with rec.active(), cfg.io:
            for k in range(2):
                v = vec(env, f"s{k}", 3)
                put(u.vec, v)
                values.append(v)
                cfg.io.save_pre_time_routine(t) if k == 0 else cfg.io.save_post_time_routine(t, 0) if t is None else cfg.io.save_in_time_routine(t, 1)
        cols, data = columns(env, rec, 'probe', 'point' if kind == 'point' else 'region')
        env.holds('columns', [f for _, f, _ in cols] == list(fields) * len(cells) and len(data) == 2)
        for row, state in zip(data, values):
            want = [at(state[c]) for c in cells for _, at in fields.values()]
            for got, w in zip(row[1:], want):
                if kind.endswith('L2'):
                    env.le('norm', 0, got)
                    got, w = got * got, w * w
                env.eq('value of the solution', got, w)
    return fn


def again(env):
    """a second run samples what is configured then, into a new record or at the end of the old one; without records nothing is written"""
    cfg, signal, fs, states, times = start(env, ('p', 'u'), 1)
    kind = env.choose('kind', KINDS)
    cfg.io.sensor[kind] = 'probe'
    s = cfg.io.sensor[kind]['probe']
    for run in range(2):
        if run == 0 or env.bool('fields change'):
            field = 'pu'[run]
            s.fields = {field: fs[field].cf(cfg.mesh, signal.par)}
        if run == 0 or env.bool('place changes'):
            where, value = place(kind, s, run)
        cfg.io.sensor.to_csv = csv = env.bool(f"to_csv{run}")
        cfg.io.sensor.mode = mode = env.choose(f"mode{run}", ['w', 'a']) if run else 'w'
        f = fs[field]
        want = {(where, field, c): (lambda k=k: value(f, k)) for k, c in enumerate(['L2'] if kind.endswith('L2') else labels(f.dims))}
        rec = Recorder()
        with rec.active():
            record(env, cfg, rec, times, states, signal)
        env.holds('files', [x.mode for x in rec.files] == ([mode] if csv else []))
        if not csv:
            env.holds('no rows', not rec.of('csv'))
            signal.now = states[0]
            got = list(cfg.io.sensor.measure())
            env.holds('one measurement', [x.sensor_name for x, _ in got] == ['probe'] and len(got[0][1]) == len(want))
            for v, w in zip(got[0][1], want.values()):
                env.eq('measured', v * v if kind.endswith('L2') else v, w())
        elif mode == 'w':
            cols, data = columns(env, rec, 'probe', 'point' if kind == 'point' else 'region')
            cols = [(tuple(p[:2]) if kind == 'point' else p, g, c) for p, g, c in cols]
            matches(env, 'probe', cols, data, want, states, signal, times, kind.endswith('L2'))
        else:
            rows = [e[2] for e in rec.of('csv', 'sensors/probe.csv')]
            env.holds('one more row', len(rows) == 1 and len(rows[0]) == 1 + len(want))
            signal.now = states[0]
            for v, w in zip(rows[0][1:], want.values()):
                env.eq('appended', v * v if kind.endswith('L2') else v, w())


def added(env):
    """sensors added or taken away between two runs: each run records those configured then"""
    cfg, signal, fs, states, times = start(env, ('p', 'u'), 1)
    want = {}
    kinds = env.choose('first', KINDS), env.choose('second', KINDS)
    for run, (name, kind, field) in enumerate((('one', kinds[0], 'p'), ('two', kinds[1], 'u'))):
        if run and env.bool('first taken away'):
            del cfg.io.sensor[kinds[0]]['one']
            del want['one']
        cfg.io.sensor[kind] = name
        s = cfg.io.sensor[kind][name]
        s.fields = {field: fs[field].cf(cfg.mesh, signal.par)}
        where, value = place(kind, s, run)
        want[name] = kind, {(where, field, c): (lambda k=k, f=fs[field], value=value: value(f, k))
                            for k, c in enumerate(['L2'] if kind.endswith('L2') else labels(fs[field].dims))}
        rec = Recorder()
        with rec.active():
            record(env, cfg, rec, times, states, signal)
        env.holds('one file each', {e[1] for e in rec.of('csv')} == {f"sensors/{n}.csv" for n in want}, str(want))
        for n, (k, w) in want.items():
            cols, data = columns(env, rec, n, 'point' if k == 'point' else 'region')
            cols = [(tuple(p[:2]) if k == 'point' else p, f, c) for p, f, c in cols]
            matches(env, n, cols, data, w, states, signal, times, k.endswith('L2'))


def refused(env):
    """sensors without fields, of one name, or with regions that are none"""
    cfg = setup(env, env.bool('transient'))
    what = env.choose('what', ['no fields', 'same name', 'regions'])
    first, second = env.choose('first', KINDS), env.choose('second', KINDS)
    env.assume(what == 'same name' or second == KINDS[0])
    f = {'p': cf(1.0)}

    def add(kind, name):
        cfg.io.sensor[kind] = name
        s = cfg.io.sensor[kind][name]
        if kind == 'point':
            s.points = ((.5, .5),)
        return s
    s = add(first, 'probe')
    if what == 'no fields':
        env.raises('a sensor needs fields', ValueError, cfg.io.open)
        return
    s.fields = f
    if what == 'regions':
        if first == 'point':
            env.stop()
        s.regions = 5
        env.raises('regions are names', ValueError, cfg.io.open)
        return
    if second == first:
        env.stop()
    add(second, 'probe').fields = f
    env.raises('names of files differ', ValueError, cfg.io.open)
    cfg.io.close()


def scenarios(thorough):
    return [(k, regional(k)) for k in KINDS[1:]] + [(f"solution-{k}", solution(k)) for k in KINDS] + [('point', points), ('several', several), ('order of integration', orders), ('again', again), ('added', added), ('refused', refused)]
