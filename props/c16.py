"""C16 the nonlinear iteration."""
from fractions import Fraction

from props.common import *
from props.tiny import tiny, put, get

META = {
    'bounds': 'systems of 2 unknowns, plain and with one unknown condensed out; all states, residuals, right hand sides, invertible '
              'Jacobians (new ones in every iteration), damping factors, tolerances>0; iteration limits 0 to 3 (thorough 5), an error that '
              'is not a number in any iteration; two solves in a row',
    'outside': ['the factorisation inside NGSolve (the linear solver is taken to answer correctly)', 'overflow', 'more unknowns'],
    'assumptions': ['NGSolve returns the inverse of the matrix assembled last; harmonic extension, its transpose and the inner solve are '
                    'those of its static condensation'],
}


class System:
    """what NGSolve does for a nonlinear form: fresh residual and Jacobian in every iteration, which begins when the solver hands over
    its number. Residual and linearisation may be asked for in any order and any number of times."""

    def __init__(self, env, condense, nan_at=None, simple=False):
        self.env, self.condense, self.nan_at, self.simple = env, condense, nan_at, simple
        self.space = self
        self.ndof = 2
        self.k = 0
        self.u = vec(env, 'u', 2)
        self.f = [0, 0] if simple else vec(env, 'f', 2)
        self.rhs = env.vector([0, 0])
        self.gvec = env.vector(self.u)
        self.log = []
        self.J = (2, 3, 5, 7)       # of some earlier state
        self.jacobian()

    def jacobian_entries(self):
        env, k = self.env, self.k
        a, b, c, d = [env.real(f"J{k}_{i}") for i in range(4)]
        env.assume((d > 0) | (d < 0))
        det = a * d - b * c
        env.assume((det > 0) | (det < 0))
        if not env.symbolic and (abs(det) < .01 or abs(d) < .01):
            env.stop()      # too ill-conditioned for a comparison in floating point
        self.J = (a, b, c, d)

    def jacobian(self):
        env = self.env
        zero = [[0, 0], [0, 0]]
        he, het, inner = zero, zero, zero
        if self.simple:
            # answers of the linear solver that make any number the error of an iteration, and (1, 0) its correction
            inv = [[0, Fraction(1, self.k) if self.k else 0], [0, 0]]
            inv = [[float(v) for v in row] for row in inv] if not env.symbolic else inv
        else:
            a, b, c, d = self.J
            det = a * d - b * c
            if self.condense:
                # second unknown is eliminated
                inv, he, het, inner = [[d / det, 0], [0, 0]], [[0, 0], [-c / d, 0]], [[0, -b / d], [0, 0]], [[0, 0], [0, 1 / d]]
            else:
                inv = [[d / det, -b / det], [-c / det, a / det]]
        self.inverse_ = inv
        self.harmonic_extension, self.harmonic_extension_trans, self.inner_solve = [env.matrix(m) for m in (he, het, inner)]

    def begin(self):
        """next iteration"""
        env = self.env
        self.k += 1
        k = self.k
        self.log.append(('begin', get(self.gvec)))
        if self.simple:
            self.A = [env.real(f"error{k}"), k]
        else:
            # any residual, written as J x + f with its solution x for the Jacobian of this iteration
            self.jacobian_entries()
            self.x = vec(env, f"x{k}_", 2)
            a, b, c, d = self.J
            self.A = [a * self.x[0] + b * self.x[1] + self.f[0], c * self.x[0] + d * self.x[1] + self.f[1]]

    # space
    def FreeDofs(self, coupling=False):
        return 'coupling' if coupling else 'all'

    # function
    @property
    def vec(self):
        return self.gvec

    # forms
    def Apply(self, x, y):
        self.log.append(('state', get(x)))
        env = self.env
        put(y, [env.nan(), env.nan()] if self.k - 1 == self.nan_at else self.A)

    def AssembleLinearization(self, x, **kw):
        self.log.append(('state', get(x)))
        self.jacobian()

    @property
    def mat(self):
        return self

    def Inverse(self, freedofs=None, inverse=None, **kw):
        self.log.append(('inverse', freedofs, inverse))
        return self.env.matrix(self.inverse_)

    def at_current_states(self):
        """everything was evaluated at the state the iteration began with"""
        for e in self.log:
            if e[0] == 'begin':
                now = e[1]
            elif e[0] == 'state':
                self.env.eq('evaluated at the current state', e[1], now)


class Load:
    def __init__(self, system):
        self.system = system

    def Assemble(self, *a, **k):
        put(self.system.rhs, self.system.f)
        return self

    @property
    def vec(self):
        return self.system.rhs


def configured(env, condense, nan_at=None, simple=False):
    cfg = tiny(env)
    cfg.nonlinear_solver = env.choose('backend', ['umfpack', 'pardiso']) if simple else 'pardiso' if condense else 'umfpack'
    cfg.optimizations.static_condensation = condense
    s = cfg.nonlinear_solver
    system = System(env, condense, nan_at, simple)
    damping = env.real('damping')
    tol = env.real('tolerance', positive=True)
    s.method.damping_factor = damping
    s.convergence_criterion = tol
    s.initialize(system, Load(system), system)
    return s, system, damping, tol


def step(condense):
    def run(env):
        """one iteration: damped correction by the solution of the linearised system, error, verdict"""
        s, y, damping, tol = configured(env, condense)
        s.max_iterations = 1
        n = 0
        for it in s.solve():
            env.holds('counts from zero', it == n)
            n += 1
            y.begin()
        env.holds('one iteration', n == 1)
        new = get(y.gvec)
        r = [p - q for p, q in zip(y.A, y.f)]
        y.at_current_states()
        for e in y.log:
            if e[0] == 'inverse':
                env.holds('unknowns solved for', e[1] == ('coupling' if condense else 'all'))
                env.holds('backend', e[2] == s.name)
        a, b, c, d = y.J
        x = y.x
        env.eq('damped correction by the solution of the linearised system', new, [p - damping * q for p, q in zip(y.u, x)])
        if condense:
            r = [r[0] - b / d * r[1], r[1]]
        e = dot(x, r)
        got = s.error
        env.eq('error', got * got, e * e)
        env.le('error is not negative', 0, got)
        if s.is_converged:
            env.lt('converged below the tolerance only', got, tol)
        else:
            env.le('not converged above the tolerance only', tol, got)
        env.holds('number', not s.is_nan)
    return run


def history(condense):
    def run(env):
        """any history of errors: stop at the first one below the tolerance, at the limit, or at one that is not a number"""
        limit = env.choose('limit', range(6 if env.thorough else 4))
        s, y, damping, tol = configured(env, condense, simple=True)
        s.max_iterations = limit
        done = 0
        for solve in range(2 if limit < 3 else 1):
            its, errors = [], []
            for it in s.solve(None if solve else 1.0):
                env.eq('one damped correction by the current linearisation per iteration', get(y.gvec),
                       [y.u[0] - (done + len(its)) * damping, y.u[1]])
                its.append(it)
                env.holds('never beyond the limit', len(its) <= limit)
                y.begin()
                errors.append(abs_(y.A[0]))
            done += len(its)
            env.eq('one damped correction by the last linearisation', get(y.gvec), [y.u[0] - done * damping, y.u[1]])
            env.holds('iterations count up', its == list(range(len(its))))
            for i, e in enumerate(errors[:-1]):
                env.le('no stop missed', tol, e)
            if len(its) < limit:
                env.lt('stops by the rule', errors[-1], tol)
            if errors and s.is_converged:
                env.lt('reported as converged', errors[-1], tol)
            elif errors:
                env.le('reported as not converged', tol, errors[-1])
            else:
                env.holds('nothing solved, nothing reported', not s.is_converged)
            env.holds('a number', not s.is_nan)
        y.at_current_states()
    return run


def diverged(condense):
    def run(env):
        limit = env.choose('limit', range(1, 5 if env.thorough else 4))
        at = env.choose('nan_at', range(limit))
        s, y, damping, tol = configured(env, condense, at, simple=True)
        s.max_iterations = limit
        its, states = 0, []
        for it in s.solve():
            states.append(get(y.gvec))
            its += 1
            y.begin()
        if y.k <= at:
            env.holds('converged before', s.is_converged and not s.is_nan)
            return
        env.holds('ends the iteration', its == at + 1)
        env.holds('reported', bool(s.is_nan) and not s.is_converged)
        env.eq('state is not spoiled', get(y.gvec), states[-1])
        # the next solve starts with a clean slate
        s.max_iterations = 0
        for it in s.solve():
            env.fail('no iteration allowed')
        env.holds('status is reset', not s.is_nan and not s.is_converged)
    return run


def tolerance(env):
    cfg = tiny(env)
    t = env.real('tolerance')
    if t <= 0:
        def put_():
            cfg.nonlinear_solver.convergence_criterion = t
        env.raises('a tolerance is positive', ValueError, put_)
    else:
        cfg.nonlinear_solver.convergence_criterion = t
        env.eq('tolerance', cfg.nonlinear_solver.convergence_criterion, t)


def forms(env):
    """the solver gets every form exactly once, with the condensation asked for"""
    import ngsolve as ngs
    kind = env.choose('kind', ['stationary', 'transient', 'pseudo_time_stepping'])
    a, b, c, d, e = env.reals('a b c d e')
    many = env.bool('several')
    q = vec(env, 'q', 2)
    cfg = tiny(env, kind, vec(env, 'p', 2))

    def terms(blf, lf):
        u, v = cfg.TnT['U']
        w, z = cfg.TnT['Uhat']
        blf['space'] = a * u * u * v * ngs.dx
        if many:
            blf['trace'] = b * w * z * ngs.dx
            lf['source'] = c * v * ngs.dx
            lf['more'] = d * z * ngs.dx
    cfg.terms = terms

    compiled = env.bool('compiled')
    cfg.optimizations.compile.realcompile = compiled
    cfg.optimizations.compile.wait = env.bool('wait')
    condense = env.bool('condense')
    cfg.optimizations.static_condensation = condense
    cfg.initialize()
    if kind != 'stationary':
        dt = env.real('dt', positive=True)
        cfg.time.timer.step = dt
    seen = []
    cls = type(cfg.blf['space'])
    keep = cls.Compile
    try:
        def Compile(form, *args, **kw):
            seen.append((args, kw))
            return form
        cls.Compile = Compile
        cfg.time.assemble()
    finally:
        cls.Compile = keep
    n = len(cfg.blf) + len(cfg.lf)
    env.holds('compiled when asked for', len(seen) == (n if compiled else 0))
    for args, kw in seen:
        env.holds('compile options', not args and kw == {'realcompile': True, 'wait': cfg.optimizations.compile.wait, 'keep_files': False})
    blf, lf, gfu = cfg.received
    env.holds('solver is set up for the solution', gfu is cfg.gfu)
    env.holds('condensation', bool(blf.condense) == condense)
    rate = 0 if kind == 'stationary' else (q[0] - cfg.start[0]) / dt
    env.eq('operator', env.applied(cfg, blf, q), [a * q[0] * q[0] + rate, b * q[1] if many else 0])
    env.eq('load', env.loaded(cfg, lf), [c, d] if many else [0, 0])


def scenarios(thorough):
    out = []
    for c in (False, True):
        n = 'condensed' if c else 'plain'
        out += [(f"step_{n}", step(c)), (f"history_{n}", history(c)), (f"diverged_{n}", diverged(c))]
    return out + [('tolerance', tolerance), ('forms', forms)]
