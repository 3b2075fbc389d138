"""C22 conditions act on exactly the regions they were assigned to."""
import logging

from props.common import *

META = {
    'bounds': 'histories of up to 2 assignments (thorough: 3) over meshes with 3 domains and 5 boundaries whose names are prefixes of '
              'each other, 6 region patterns given as text or sequence (with unknown and repeated names), conditions given by object, '
              'by name or shared between assignments; all wall, outflow, far-field and periodic kinds, all values of their fields; '
              'initial states, sponges, deformations and their combinations on common regions',
    'outside': ['region names with the special characters of regular expressions',
                'two different initial states on one region (reported as such, not defined)'],
    'witness_cap': 16,
}

DOMAINS = ('in', 'inner', 'sponge')
BOUNDS = ('wall', 'wall_in', 'top', 'left', 'right')


def mesh_of(env):
    return env.strip(materials=DOMAINS, bottom=('wall', 'wall_in', 'wall'))


class Heard(logging.Handler):
    def __init__(self):
        super().__init__()
        self.text = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.text.append(record.getMessage())


def patterns(names):
    a, b, c = names[:3]
    return [(a, [a]), (b, [b]), (f"{a}|{c}", [a, c]), ([b, a], [a, b]), ((a, b, c), [a, b, c]), (f"{c}|nowhere", [c])]


def members(env, pattern):
    return sorted(pattern.split('|')) if isinstance(pattern, str) else None


def bookkeeping(which):
    """every region knows its conditions, and every query agrees"""
    def fn(env):
        from dream.compressible import FarField, InviscidWall, Outflow, Initial
        from dream.mesh import Periodic, SpongeLayer, PSpongeLayer, GridDeformation
        cfg = solver(env, 2, mesh=mesh_of(env))
        conds, names = (cfg.bcs, BOUNDS) if which == 'boundary' else (cfg.dcs, DOMAINS)
        kinds = [FarField, InviscidWall, Periodic] if which == 'boundary' else [Initial, SpongeLayer, PSpongeLayer]
        n = env.choose('assignments', [0, 1, 2, 3] if env.thorough else [0, 1, 2])
        want = {r: [] for r in names}
        heard = Heard()
        log = logging.getLogger('dream')
        keep, level = log.handlers[:], logging.root.manager.disable
        logging.disable(logging.NOTSET)
        log.handlers[:] = [heard]
        made = []
        try:
            for i in range(n):
                pattern, regions = env.choose(f"pattern{i}", patterns(names))
                how = env.choose(f"how{i}", ['object', 'name'] + (['again'] if made else []))
                if how == 'again':
                    c, kind = made[-1]
                    conds[pattern] = c
                else:
                    kind = env.choose(f"kind{i}", kinds)
                    if how == 'object':
                        c = kind()
                        conds[pattern] = c
                    else:
                        before = {r: len(conds[r]) for r in names}
                        conds[pattern] = kind.name
                        c = conds[regions[0]][-1]
                        env.holds('condition of that name', type(c) is kind)
                    made.append((c, kind))
                for r in regions:
                    want[r].append(c)
                env.holds('condition knows its mesh', c.mesh is cfg.mesh)
                env.holds('unknown regions are reported', any('nowhere' in t for t in heard.text) == ('nowhere' in pattern))
                heard.text.clear()
        finally:
            log.handlers[:] = keep
            logging.disable(level)
        env.holds('regions of the mesh', sorted(conds) == sorted(names))
        for r in names:
            env.holds(f"conditions of {r}", list(conds[r]) == want[r])
        for kind in kinds:
            mine = [r for r in names if any(isinstance(c, kind) for c in want[r])]
            env.holds('regions with a condition', sorted(conds.get_region(kind)) == sorted(mine))
            env.holds('regions as text', sorted(conds.get_region(kind, as_pattern=True).split('|')) == (sorted(mine) or ['']))
            env.holds('has condition', conds.has_condition(kind) == bool(mine))
            env.holds('has condition of that name', conds.has_condition(kind.name) == bool(mine))
            # each condition once, with exactly its regions, unless another one of the kind covers the same regions
            got = conds.to_pattern(kind)
            all_ = {id(c): c for r in names for c in want[r] if isinstance(c, kind)}
            areas = {}
            for c in all_.values():
                areas.setdefault(tuple(sorted(r for r in names if c in want[r])), []).append(c)
            env.holds('condition by region', sorted(tuple(sorted(p.split('|'))) for p in got) == sorted(areas))
            env.holds('each with one of its conditions', all(c in areas[tuple(sorted(p.split('|')))] for p, c in got.items()))
        env.holds('regions with either', sorted(conds.get_region(*kinds[:2])) == sorted(
            r for r in names if any(isinstance(c, tuple(kinds[:2])) for c in want[r])))
        if which == 'boundary':
            closed = [r for r in names if want[r] and not any(isinstance(c, Periodic) for c in want[r])]
            env.holds('domain boundaries', sorted(cfg.bcs.get_domain_boundaries()) == sorted(closed))
            env.holds('domain boundaries as text', sorted(cfg.bcs.get_domain_boundaries(True).split('|')) == (sorted(closed) or ['']))
            env.holds('periodic boundaries', sorted(cfg.bcs.get_periodic_boundaries()) == sorted(
                r for r in names if any(isinstance(c, Periodic) for c in want[r])))
        else:
            for got, kind, no in ((cfg.dcs.get_psponge_layers(), PSpongeLayer, ()), (cfg.dcs.get_sponge_layers(), SpongeLayer, PSpongeLayer),
                                  (cfg.dcs.get_grid_deformations(), GridDeformation, ())):
                mine = {r: [c for c in want[r] if isinstance(c, kind) and not isinstance(c, no)] for r in names}
                env.holds('layers by region', sorted(got) == sorted(r for r in names if mine[r]))
                env.holds('layer of the region', all(c in mine[r] for r, c in got.items()))
        conds.clear()
        env.holds('cleared', sorted(conds) == sorted(names) and all(len(conds[r]) == 0 for r in names))
    return fn


def crowded(which):
    def fn(env):
        """several conditions on one region: all are found, whatever their order"""
        from dream.compressible import FarField, InviscidWall, Initial
        from dream.mesh import Periodic, SpongeLayer, PSpongeLayer, GridDeformation
        cfg = solver(env, 2, mesh=mesh_of(env))
        conds, names = (cfg.bcs, BOUNDS) if which == 'boundary' else (cfg.dcs, DOMAINS)
        kinds = [FarField, InviscidWall, Periodic] if which == 'boundary' else [Initial, SpongeLayer, GridDeformation]
        r = names[env.choose('region', [0, 1])]
        own = [env.choose(f"kind{i}", kinds) for i in range(4 if env.thorough else 3)]
        for k in own:
            conds[r] = k()
        env.holds('all are kept', [type(c) for c in conds[r]] == own)
        for k in kinds:
            env.holds('has condition', conds.has_condition(k) == conds.has_condition(k.name) == (k in own))
            env.holds('region', list(conds.get_region(k)) == ([r] if k in own else []))
            env.holds('by region', {p: type(c) for p, c in conds.to_pattern(k).items()} == ({r: k} if k in own else {}))
        if which == 'boundary':
            env.holds('periodic', cfg.bcs.get_periodic_boundaries() == ([r] if Periodic in own else []))
            env.holds('not periodic', cfg.bcs.get_domain_boundaries() == ([] if Periodic in own else [r]))
        else:
            env.holds('layers', list(cfg.dcs.get_sponge_layers()) == ([r] if SpongeLayer in own else []))
            env.holds('deformations', list(cfg.dcs.get_grid_deformations()) == ([r] if GridDeformation in own else []))
    return fn


def refusals(env):
    cfg = solver(env, 2, mesh=mesh_of(env))
    conds = env.choose('which', [cfg.bcs, cfg.dcs])
    r = list(conds)[0]

    def put(v):
        conds[r] = v
    env.raises('unknown name', ValueError, lambda: put('no_such_condition'))
    env.raises('a condition of the other kind', ValueError, lambda: put('initial' if conds is cfg.bcs else 'farfield'))
    bad = env.choose('bad', [None, 1, {}, object()])
    env.raises('no condition', TypeError, lambda: put(bad))
    env.holds('nothing is assigned', all(len(v) == 0 for v in conds.values()))


def periodic(env):
    """a periodic mesh needs its periodic condition"""
    mesh = env.strip(materials=('a', 'b'), periodic=True)
    cfg = solver(env, 2, mesh=mesh)
    cfg.fem.order = 0
    cfg.dynamic_viscosity = 'inviscid'
    cfg.bcs['top|bottom'] = 'inviscid_wall'
    given = env.bool('given')
    cfg.initialize_finite_element_spaces()
    cfg.initialize_trial_and_test_functions()
    cfg.initialize_gridfunctions()
    if given:
        cfg.bcs['left|right'] = 'periodic'
        cfg.set_boundary_conditions()
        env.holds('accepted', cfg.bcs.has_condition('periodic'))
    else:
        env.raises('missing periodic condition', ValueError, cfg.set_boundary_conditions)


def boundary_terms(env):
    """the terms on each boundary are those of the conditions assigned to it, each once"""
    from vlib.forms import build
    from dream.compressible import InviscidWall, Symmetry, IsothermalWall, Outflow, flowfields
    g = gas(env)
    cfg = solver(env, 2, g, mesh=mesh_of(env))
    cfg.dynamic_viscosity = 'inviscid'
    cfg.fem.order = 0
    n = env.unit_vector('n')
    q, qh, vh = vec(env, 'q', 4), vec(env, 'qh', 4), vec(env, 'vh', 4)
    env.assume(q[0] > 0)
    un = dot(q[1:3], n)
    want = {r: [] for r in BOUNDS}
    made = []
    for i in range(env.choose('assignments', [1, 2, 3]) if env.thorough else 2):
        pattern, regions = env.choose(f"pattern{i}", patterns(BOUNDS)[1:5])
        kind = env.choose(f"kind{i}", ['outflow', 'inviscid_wall', 'symmetry', 'isothermal_wall'] + (['again'] if made else []))
        if kind == 'again':
            c, bc = made[-1]
        elif kind == 'outflow':
            p = env.real(f"p{i}", positive=True)
            c = Outflow(fields=flowfields(p=p))
            bc = q[:3] + [dot(q[1:3], q[1:3]) / (2 * q[0]) + p / (g - 1)]
        elif kind == 'isothermal_wall':
            T = env.real(f"T{i}", positive=True)
            c = IsothermalWall(fields=flowfields(T=T))
            bc = [q[0], 0, 0, q[0] * T / g]
        else:
            c = {'inviscid_wall': InviscidWall, 'symmetry': Symmetry}[kind]()
            bc = [q[0], q[1] - un * n[0], q[2] - un * n[1], q[3]]
        cfg.bcs[pattern] = c
        made.append((c, bc))
        for r in regions:
            if (c, bc) not in want[r]:
                want[r].append((c, bc))
    f = build(env, cfg)
    (U, V), (Uh, Vh) = cfg.TnT['U'], cfg.TnT['Uhat']
    b = {U: q, V: [0] * 4, Uh: qh, Vh: vh, cfg.mesh.normal: n}
    for r in BOUNDS:
        t = 0
        for _, bc in want[r]:
            t = t + dot([x - y for x, y in zip(qh, bc)], vh)
        env.eq(f"terms of {r}", f.total(('boundary', r), b), t)


def domain_terms(env):
    """the terms in each domain are those of the layers assigned to it, each once; other conditions add none"""
    from vlib.forms import build
    from dream.mesh import SpongeLayer, PSpongeLayer, GridDeformation, Initial, GridMapping, BufferCoord
    from dream.compressible import flowfields
    import ngsolve as ngs
    g = gas(env)
    cfg = solver(env, 2, g, mesh=mesh_of(env))
    cfg.dynamic_viscosity = 'inviscid'
    cfg.fem.order = 0
    cfg.time = 'stationary'
    q, v = vec(env, 'q', 4), vec(env, 'v', 4)
    env.assume(q[0] > 0)
    want = {r: [] for r in DOMAINS}
    made = []
    for i in range(env.choose('assignments', [1, 2, 3]) if env.thorough else 2):
        pattern, regions = env.choose(f"pattern{i}", patterns(DOMAINS)[1:5])
        kind = env.choose(f"kind{i}", ['sponge', 'psponge', 'initial', 'deformation'] + (['again'] if made else []))
        term = None
        if kind == 'again':
            c, term = made[-1]
        elif kind == 'initial':
            c = Initial(fields=flowfields(rho=1, u=(1, 0), p=1))
        elif kind == 'deformation':
            c = GridDeformation(x=GridMapping.linear(2, BufferCoord.x(0, 1)))
        else:
            w, p = env.real(f"w{i}"), env.real(f"p{i}", positive=True)
            c = (SpongeLayer if kind == 'sponge' else PSpongeLayer)(function=ngs.CF(w), target_state=flowfields(rho=1, u=(0, 0), p=p))
            term = w * dot([q[0] - 1, q[1], q[2], q[3] - p / (g - 1)], v)
        cfg.dcs[pattern] = c
        made.append((c, term))
        for r in regions:
            if (c, term) not in want[r]:
                want[r].append((c, term))
    moved = cfg.dcs.get_grid_deformations()
    mine = {r: [c for c, _ in want[r] if isinstance(c, GridDeformation)] for r in DOMAINS}
    env.holds('deformations by region', sorted(moved) == sorted(r for r in mine if mine[r]) and all(c in mine[r] for r, c in moved.items()))
    f = build(env, cfg)
    U, V = cfg.TnT['U']
    b = {U: q, V: v, ngs.grad(V): [0] * 8}
    for i, r in enumerate(DOMAINS):
        t = 0
        for _, term in want[r]:
            if term is not None:
                t = t + term
        env.eq(f"terms of {r}", f.total(('cell', r, i), b), t)


def initial_states(env):
    """each domain starts with the state assigned to it"""
    from dream.compressible import Initial, flowfields
    g = gas(env)
    cfg = solver(env, 2, g, mesh=mesh_of(env))
    cfg.dynamic_viscosity = 'inviscid'
    cfg.fem.order = 0
    cfg.time = 'stationary'
    layout = env.choose('layout', [[], [0], [0, 1], [0, 1, 2], [1, 1, 0], [0, 0, 0], [None, 0, 1], [1, None, 1]])
    states = {}
    for i in sorted({s for s in layout if s is not None}):
        tr = state(env, 2, g, f"_{i}")
        states[i] = tr
        cfg.dcs[[r for r, s in zip(DOMAINS, layout) if s == i]] = Initial(fields=flowfields(rho=tr['rho'], u=cf(tr['u']), p=tr['p']))
    cfg.initialize_finite_element_spaces()
    cfg.initialize_trial_and_test_functions()
    cfg.initialize_gridfunctions()
    cfg.set_boundary_conditions()
    cfg.time.initialize()
    cfg.time.set_initial_conditions()
    layout = layout + [None] * (3 - len(layout))
    for i, (r, s) in enumerate(zip(DOMAINS, layout)):
        got = env.value(cfg.gfus['U'], region=i, element=i)
        env.eq(f"state of {r}", got, [0] * 4 if s is None else conserved(states[s]))
        env.eq(f"trace at the wall of {r}", env.value(cfg.gfus['Uhat'], facet=env.facet('bottom', i), element=i),
               [0] * 4 if s is None else conserved(states[s]))
    for i, (a, b) in enumerate(zip(layout, layout[1:])):
        a, b = ([0] * 4 if s is None else conserved(states[s]) for s in (a, b))
        env.eq('trace between domains', env.value(cfg.gfus['Uhat'], facet=env.facet('inner', i), element=i),
               [(x + y) / 2 for x, y in zip(a, b)])


def scenarios(thorough):
    return [('bookkeeping of boundary conditions', bookkeeping('boundary')), ('bookkeeping of domain conditions', bookkeeping('domain')),
            ('several on a boundary', crowded('boundary')), ('several on a domain', crowded('domain')), ('refusals', refusals), ('periodic', periodic), ('boundary terms', boundary_terms), ('domain terms', domain_terms),
            ('initial states', initial_states)]
