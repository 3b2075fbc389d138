"""A minimal solver configuration whose nonlinear solver follows a script: runs of the real time and output code with
arbitrary states."""

_made = {}


def classes():
    if _made:
        return _made
    import ngsolve as ngs
    from dream.config import interface
    from dream.solver import SolverConfiguration, FiniteElementMethod, NonlinearSolver, UmfpackNonlinearSolver
    from dream.mesh import BoundaryConditions, DomainConditions

    class TinyMethod(FiniteElementMethod):
        name = 'tiny'

        def add_finite_element_spaces(self, spaces):
            spaces['U'] = ngs.L2(self.mesh, order=0)
            spaces['Uhat'] = ngs.L2(self.mesh, order=0)

        def get_temporal_integrators(self):
            return {'U': ngs.dx, 'Uhat': ngs.dx}

        def add_symbolic_spatial_forms(self, blf, lf):
            terms = getattr(self.cfg, 'terms', None)
            if terms is not None:
                return terms(blf, lf)
            u, v = self.cfg.TnT['U']
            blf['space'] = u * v * ngs.dx

        def add_symbolic_temporal_forms(self, blf, lf):
            self.cfg.time.scheme.add_symbolic_temporal_forms('U', blf, lf)

        def get_fields(self, quantities):
            return {}

        def set_initial_conditions(self):
            start = getattr(self.cfg, 'start', None)
            if start is not None:
                put(self.cfg.gfu.vec, start)

        def set_boundary_conditions(self):
            pass

    class TinySolver(NonlinearSolver):
        name = 'scripted'

        def initialize(self, blf, lf, gfu, **kwargs):
            self.cfg.received = (blf, lf, gfu)
            self.gfu = gfu
            self.du = gfu.vec.CreateVector()
            put(self.du, [0] * len(self.du))
            self.method.initialize(gfu, self.du)
            self.error = 1.0

        def log_iteration_error(self, it=None, t=None):
            pass

        def solve_update_step(self):
            """`cfg.script(solver)` sets the update and the verdict"""
            self.cfg.script(self)

    class TinyConfiguration(SolverConfiguration):
        name = 'tiny'

        def __init__(self, mesh, **kwargs):
            super().__init__(mesh, BoundaryConditions(mesh, []), DomainConditions(mesh, []), **kwargs)

        @interface(default=TinyMethod)
        def fem(self, fem):
            return fem

    _made.update(fem=TinyMethod, solver=TinySolver, cfg=TinyConfiguration)
    return _made


def put(vec, values):
    for i, v in enumerate(values):
        vec[i] = v


def get(vec):
    return [vec[i] for i in range(len(vec))]


def tiny(env, kind='transient', start=None, script=None):
    cfg = classes()['cfg'](env.strip())
    cfg.time = kind
    cfg.nonlinear_solver = 'scripted'
    cfg.optimizations.compile.realcompile = False
    cfg.start = start
    cfg.script = script or (lambda solver: None)
    return cfg


def step_script(updates):
    """one iteration per step: the k-th step changes the state by -updates[k]"""
    todo = iter(updates)

    def script(solver):
        put(solver.du, next(todo))
        solver.is_converged = True
    return script
