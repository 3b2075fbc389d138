"""C21 output folders."""
import os
from pathlib import Path
from props.common import *
from props.tiny import tiny, put, get
from props.recorder import Recorder

META = {
    'bounds': 'any sequence of 3 changes (thorough also 4, with fewer places) of the root and of two output folders, each to one of: the root itself, names and '
              'nested names (equal to names in use or new), an absolute place inside or outside of the root, given as text or path, and back to '
              'the working directory; names are representatives up to equality and nesting; every kind of record written alone, and log files',
    'outside': ['links between folders'],
    'witness_cap': 30,
}

class Model:
    """where the folders are expected"""

    def __init__(self, cwd):
        self.at = {'root': cwd}
        self.at.update({k: os.path.join(cwd, n) for k, n in [('states', 'states'), ('vtk', 'vtk'), ('settings', 'cfg'),
                                                             ('sensors', 'sensors')]})

    def set(self, key, value):
        old = self.at['root']
        self.at[key] = new = os.path.normpath(os.path.join(old, value)) if value is not None else os.getcwd()
        if key == 'root':
            for k, place in self.at.items():
                if k != 'root' and inside(place, old):
                    self.at[k] = os.path.normpath(os.path.join(new, os.path.relpath(place, old)))

    def place(self, key):
        return self.at[key]


def inside(path, root):
    return path == root or path.startswith(root.rstrip('/') + '/')


def expected(env, label, folders, model):
    for k in model.at:
        got = getattr(folders, k)
        env.holds(f"{label}: {k} is a path", isinstance(got, Path))
        env.holds(f"{label}: {k}", os.path.normpath(str(got)) == model.place(k), f"{got} instead of {model.place(k)}")


def choice(env, i, model, keys, few):
    key = env.choose(f"folder{i}", keys)
    if key == 'root':
        value = env.choose(f"value{i}", ['new', 'states', '.', 'outside'] if few else
                           ['new', 'states', 'new/deep', '.', 'inside', 'outside', None])
    else:
        value = env.choose(f"value{i}", ['own', 'states', '.', 'outside'] if few else
                           ['own', 'states', 'deep/own', 'deep/own/er', '.', 'inside', 'outside'])
    if value == 'inside':
        value = model.place('root').rstrip('/') + '/placed/here'
    elif value == 'outside':
        value = '/elsewhere/out'
    return key, value


def sequence(last, steps, few=False):
    def fn(env):
        """after any sequence of changes every folder is below the current root, or where it was placed"""
        env.scratch()
        cfg = tiny(env)
        folders = cfg.io.folders
        model = Model(os.getcwd())
        expected(env, 'default', folders, model)
        for i in range(steps):
            key, value = choice(env, i, model, ['root', 'states', 'vtk'] if i < steps - 1 else [last], few)
            setattr(folders, key, Path(value) if i % 2 and value is not None else value)
            model.set(key, value)
            expected(env, f"after {key}", folders, model)
    return fn


def neighbours(env):
    """a folder placed beside or above the root stays there, however similar the names are"""
    env.scratch()
    cfg = tiny(env)
    folders = cfg.io.folders
    model = Model(os.getcwd())
    first = env.choose('first', ['.', 'run', 'deep/run'])
    if first != '.':
        folders.root = first
        model.set('root', first)
    key = env.choose('key', ['states', 'settings'])
    root = model.place('root')
    where = env.choose('where', ['longer name', 'below longer name', 'shorter name', 'above', 'below similar', 'inside similar'])
    value = {'longer name': root + '-2', 'below longer name': root + '2/own', 'shorter name': root[:-1], 'above': os.path.dirname(root),
             'below similar': root + '2/' + os.path.basename(root) + '/own', 'inside similar': root + '/' + os.path.basename(root)}[where]
    setattr(folders, key, Path(value) if env.bool('as_path') else value)
    model.set(key, value)
    expected(env, 'placed', folders, model)
    for i in range(2):
        new = env.choose(f"root{i}", ['new', '.', '/elsewhere/out'] + [root + '-2', os.path.dirname(root)] * i)
        folders.root = new
        model.set('root', new)
        expected(env, f"root {i}", folders, model)


def forms(env):
    """attribute, dotted and nested options place the folders alike, in any order of relative names"""
    env.scratch()
    cwd = os.getcwd()
    root = env.choose('root', ['new', 'new/deep', '/elsewhere/out', '.'])
    names = {k: env.choose(k, ['own', 'deep/' + k]) for k in ('states', 'vtk')}
    names['sensors'] = 's'
    how = env.choose('how', ['attribute', 'dotted', 'nested', 'instance'])
    first = env.bool('root_first')
    items = list(names.items())
    items = [('root', root)] + items if first else items + [('root', root)]
    cfg = tiny(env)
    if how == 'attribute':
        for k, v in items:
            setattr(cfg.io.folders, k, v)
    elif how == 'dotted':
        cfg.update({f"io.folders.{k}": v for k, v in items})
    elif how == 'nested':
        cfg.io.folders = dict(items)
    else:
        from dream.io import BenchmarkFolders
        cfg.io.folders = BenchmarkFolders(**dict(items))
    model = Model(cwd)
    for k, v in [('root', root)] + list(names.items()):
        model.set(k, v)
    expected(env, how, cfg.io.folders, model)


def files(env):
    """every record is written into the folder of its kind"""
    env.scratch()
    base = os.getcwd()
    n = 1

    def script(s):
        put(s.du, [1, 1])
        s.is_converged = True
    cfg = tiny(env, 'transient', [0, 0], script)
    cfg.time.timer.interval, cfg.time.timer.step = (0, n + .5), 1
    for s in ('ngsmesh', 'settings', 'gfu', 'vtk', 'sensor'):
        setattr(cfg.io, s, True)
    cfg.io.gfu.time_level_rate = 1
    cfg.io.sensor.point = 'probe'
    cfg.io.sensor.point['probe'].points = ((.5, .5),)
    root = env.choose('root', [None, 'run', base + '/far/run'])
    at = {k: env.choose(k, [None, 'mine', 'deep/mine', base + '/placed']) for k in ('states', 'vtk', 'settings', 'sensors')
          if env.thorough or k in ('states', 'vtk')}
    when = env.choose('when', ['before', 'after'])      # initialisation

    def place():
        model = Model(base)
        for k, v in [('root', root)] + list(at.items()):
            if v is not None:
                setattr(cfg.io.folders, k, v)
                model.set(k, v)
        return model
    if when == 'before':
        model = place()
    cfg.initialize()
    if when == 'after':
        model = place()
    cfg.io.vtk.fields = {'u': cfg.gfus['U']}
    cfg.io.sensor.point['probe'].fields = {'u': cfg.gfus['U']}
    rec = Recorder()
    with rec.active():
        cfg.solve()
    seen = {'gfu': 'states', 'vtk': 'vtk', 'csv': 'sensors'}
    for kind, key in seen.items():
        events = rec.of(kind)
        env.holds(f"{kind} is written", len(events) > 0)
        for e in events:
            env.holds(f"{kind} folder", os.path.normpath(os.path.join(base, os.path.dirname(e[1]))) == model.place(key), e[1])
    for e in rec.of('pickle'):
        where = os.path.normpath(os.path.join(base, os.path.dirname(e[1])))
        what = 'root' if 'mesh' in os.path.basename(e[1]) else 'settings'
        env.holds(f"{what} folder", where == model.place(what), e[1])
    env.holds('mesh and settings are written', len(rec.of('pickle')) == 2)
    allowed = {model.place(k) for k in model.at}
    for d, _, names in os.walk(base):
        if names:
            env.holds('files only below the folders', d in allowed, d)
    env.holds('folders exist', all(os.path.isdir(model.place(k)) for k in ('root', 'states', 'vtk', 'settings', 'sensors')))


def alone(env):
    """a record finds its folder made, also if nothing else is written"""
    env.scratch()
    base = os.getcwd()

    def script(s):
        put(s.du, [1, 1])
        s.is_converged = True
    cfg = tiny(env, env.choose('kind', ['stationary', 'transient']), [0, 0], script)
    if cfg.time.name == 'transient':
        cfg.time.timer.interval, cfg.time.timer.step = (0, 1.5), 1
    stream, key, kind = env.choose('stream', [('ngsmesh', 'root', 'pickle'), ('settings', 'settings', 'pickle'), ('gfu', 'states', 'gfu'),
                                              ('vtk', 'vtk', 'vtk'), ('sensor', 'sensors', 'csv')])
    root, own = env.choose('root', [None, 'run', 'run/deep', base + '/far/run']), env.choose('own', [None, 'deep/mine'])
    model = Model(base)
    setattr(cfg.io, stream, True)
    if stream == 'settings':
        cfg.io.settings.txt = env.bool('txt')
        cfg.io.settings.pickle = True
    for k, v in (('root', root), (key if key != 'root' else None, own)):
        if k is not None and v is not None:
            setattr(cfg.io.folders, k, v)
            model.set(k, v)
    cfg.initialize()
    if stream == 'vtk':
        cfg.io.vtk.fields = {'u': cfg.gfus['U']}
    if stream == 'sensor':
        cfg.io.sensor.point = 'probe'
        cfg.io.sensor.point['probe'].points = ((.5, .5),)
        cfg.io.sensor.point['probe'].fields = {'u': cfg.gfus['U']}
    for _ in range(2):                 # the second time the folder is there
        rec = Recorder()
        with rec.active():
            cfg.solve()
        events = rec.of(kind)
        env.holds(f"{stream} is written", len(events) > 0)
        for e in events:
            env.holds(f"{stream} folder", os.path.normpath(os.path.join(base, os.path.dirname(e[1]))) == model.place(key), e[1])
    env.holds('folder', os.path.isdir(model.place(key)))
    for d, _, names in os.walk(base):
        env.holds('files in this folder only', not names or d == model.place(key), d)


def log(env):
    """the log file is in the root folder chosen when it is switched on; switched off nothing more is written to it"""
    import logging
    env.scratch()
    base = os.getcwd()
    cfg = tiny(env)
    model = Model(base)
    cfg.io.log.to_terminal = False
    logger = logging.getLogger('dream')
    keep, level = logger.handlers[:], logging.root.manager.disable
    logging.disable(logging.NOTSET)
    logger.addHandler(logging.NullHandler())
    texts = {}
    try:
        for k in range(2):
            root = env.choose(f"root{k}", [None, 'run', base + '/far/run'])
            if root is not None:
                cfg.io.folders.root = root
                model.set('root', root)
            name = env.choose(f"name{k}", [None, 'mine'])
            if name is not None:
                cfg.io.log.filename = name
            file = os.path.join(model.place('root'), cfg.io.log.filename + '.log')
            on = env.bool(f"on{k}")
            cfg.io.log.to_file = on
            env.holds('handler', sum(isinstance(h, logging.FileHandler) for h in logger.handlers) == on)
            logger.warning(f"message {k}")
            if on:
                texts.setdefault(file, []).append(f"message {k}")
        cfg.io.log.to_file = False
        logger.warning('not to be written')
        env.holds('no handler left', not any(isinstance(h, logging.FileHandler) for h in logger.handlers))
    finally:
        cfg.io.log.to_file = False
        logger.handlers[:] = keep
        logging.disable(level)
    found = {os.path.join(d, n) for d, _, names in os.walk(base) for n in names}
    env.holds('log files', found == set(texts), str(found))
    for file, messages in texts.items():
        with open(file) as f:
            lines = f.read().splitlines()
        env.holds('messages', len(lines) == len(messages) and all(m in l for m, l in zip(messages, lines)), str(lines))


def listing(env):
    """the folders below the root, by prefix"""
    env.scratch()
    cfg = tiny(env)
    root = env.choose('root', ['.', 'run', os.getcwd() + '/far'])
    cfg.io.folders.root = root
    top = Path(root).absolute() if root != '.' else Path(os.getcwd())
    made = [n for n in ('a1', 'a2', 'b1') if env.bool(n)]
    for n in made:
        (top / n / 'below').mkdir(parents=True)
    if env.bool('file'):
        top.mkdir(exist_ok=True)
        (top / 'a3').write_text('no folder')
    for pattern in ('', 'a', 'b', 'c'):
        want = sorted(n for n in made if n.startswith(pattern))
        env.holds(f"names {pattern}", sorted(cfg.io.folders.get_directory_names(pattern)) == want)
        env.holds(f"paths {pattern}", sorted(map(str, cfg.io.folders.get_directory_paths(pattern))) == [str(top / n) for n in want])


def scenarios(thorough):
    keys = ('root', 'states', 'vtk')
    return [(f"sequence_{k}", sequence(k, 3)) for k in keys] \
        + ([(f"longer_{k}", sequence(k, 4, True)) for k in keys] if thorough else []) \
        + [('neighbours', neighbours), ('forms', forms), ('files', files), ('alone', alone), ('log', log), ('listing', listing)]
