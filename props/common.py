"""Independent physics used as oracle, and builders shared by the scenarios."""


def dot(a, b):
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def matmul(A, B, n, m, k):
    """flat row-major n x m times m x k"""
    out = []
    for i in range(n):
        for j in range(k):
            t = 0
            for l in range(m):
                t = t + A[i * m + l] * B[l * k + j]
            out.append(t)
    return out


def matvec(A, v, n, m):
    return matmul(A, v, n, m, 1)


def ident(n):
    return [1 if i == j else 0 for i in range(n) for j in range(n)]


def solver(env, dim=2, gamma=None, **kw):
    from dream.compressible import CompressibleFlowSolver
    mesh = kw.pop('mesh', None) or env.mesh(dim)
    cfg = CompressibleFlowSolver(mesh)
    if gamma is not None:
        cfg.equation_of_state = 'ideal'
        cfg.equation_of_state.heat_capacity_ratio = gamma
    for k, v in kw.items():
        setattr(cfg, k, v)
    return cfg


def later(cfg, path, value):
    """sets a parameter only after the forms were built: they have to follow it"""
    def settle():
        *head, last = path.split('.')
        node = cfg
        for h in head:
            node = getattr(node, h)
        setattr(node, last, value)
    if not hasattr(cfg, 'settled_later'):
        cfg.settled_later = []
    cfg.settled_later.append(settle)


GAMMA = 'equation_of_state.heat_capacity_ratio'


def gas(env):
    return env.real('gamma', above=1)


def state(env, dim=2, gamma=None, suffix='', vel=None):
    """A gas state: positive density and speed of sound, any velocity; every
    derived quantity from the ideal-gas relations p = rho c^2/gamma,
    T = c^2/(gamma-1), e = T/gamma."""
    rho = env.real('rho' + suffix, positive=True)
    c = env.real('c' + suffix, positive=True)
    u = [env.real(f"u{i}{suffix}") for i in range(dim)] if vel is None else list(vel)
    return truth(rho, c, u, gamma)


def truth(rho, c, u, g):
    d = {'rho': rho, 'u': u, 'c': c}
    d['rho_u'] = [rho * x for x in u]
    d['p'] = rho * c * c / g
    d['T'] = c * c / (g - 1)
    d['Ei'] = c * c / (g * (g - 1))
    d['Ek'] = dot(u, u) / 2
    d['E'] = d['Ei'] + d['Ek']
    d['rho_Ei'] = rho * d['Ei']
    d['rho_Ek'] = rho * d['Ek']
    d['rho_E'] = rho * d['E']
    d['H'] = d['E'] + d['p'] / rho
    d['rho_H'] = rho * d['H']
    return d


NAMES = {'rho': 'density', 'u': 'velocity', 'rho_u': 'momentum', 'p': 'pressure', 'T': 'temperature', 'rho_E': 'energy',
         'E': 'specific_energy', 'rho_Ei': 'inner_energy', 'Ei': 'specific_inner_energy', 'rho_Ek': 'kinetic_energy',
         'Ek': 'specific_kinetic_energy', 'rho_H': 'enthalpy', 'H': 'specific_enthalpy', 'c': 'speed_of_sound'}


def cf(v):
    import ngsolve as ngs
    return ngs.CF(tuple(v)) if isinstance(v, (list, tuple)) else ngs.CF(v)


def fields(vals, keys=None):
    from dream.compressible import flowfields
    return flowfields(**{k: cf(v) for k, v in vals.items() if keys is None or k in keys})


def lazy_fields(env, vals, tag='has_'):
    """The fields of `vals`, of which an arbitrary subset is present: whether a
    field is present is decided by a fresh symbolic boolean when the code under
    test first asks for it."""
    from dream.compressible import flowfields
    if not env.symbolic:
        return flowfields(**{k: v for k, v in vals.items() if env.inputs.get(f"{tag}{k}") == '1'})
    decided = {}
    byname = {flowfields.symbols.get(k, k): k for k in vals}

    def present(name):
        if name in decided:
            return decided[name]
        if name not in byname:
            return False
        decided[name] = env.bool(f"{tag}{byname[name]}")
        return decided[name]

    class LazyData(dict):
        def __getitem__(self, name):
            if dict.__contains__(self, name):
                return dict.__getitem__(self, name)
            if present(name):
                return vals[byname[name]]
            raise KeyError(name)

        def __contains__(self, name):
            return dict.__contains__(self, name) or present(name)

        def get(self, name, default=None):
            return self[name] if name in self else default

        def __iter__(self):
            for n in byname:
                present(n)
            return iter([n for n in list(byname) + list(dict.keys(self)) if n in self])

        def keys(self):
            return list(iter(self))

        def items(self):
            return [(k, self[k]) for k in self]

        def values(self):
            return [self[k] for k in self]

        def __len__(self):
            return len(list(iter(self)))

    class Lazy(flowfields):
        def __getitem__(self, name):
            return lazy[name]

        def __contains__(self, name):
            return name in lazy

        def __iter__(self):
            return iter(lazy)

        def __len__(self):
            return len(lazy)

        def get(self, name, default=None):
            return lazy.get(name, default)
    lazy = LazyData()
    U = Lazy()
    U.data = lazy
    return U


# ------------------------------------------------------------------ weak forms

def conserved(tr):
    return [tr['rho']] + list(tr['rho_u']) + [tr['rho_E']]


def euler_flux(tr, n):
    """F(U) n of the state"""
    un = dot(tr['u'], n)
    return [tr['rho'] * un] + [m * un + tr['p'] * k for m, k in zip(tr['rho_u'], n)] + [tr['rho_H'] * un]


def vec(env, name, k):
    return [env.real(f"{name}{i}") for i in range(k)]


def wave_state(env, n, g, suffix=''):
    """any state, its velocity by normal and tangential part"""
    un, ut = env.real('un' + suffix), env.real('ut' + suffix)
    tr = state(env, 2, g, suffix, vel=[un * n[0] + ut * n[1], un * n[1] - ut * n[0]])
    tr['un'], tr['ut'] = un, ut
    return tr


def eigenvectors(tr, n):
    """right eigenvectors of the 2d Euler flux Jacobian in direction n"""
    u, c, H, q = tr['u'], tr['c'], tr['H'], tr['Ek']
    un = dot(u, n)
    t = [n[1], -n[0]]
    return [[1, u[0] - c * n[0], u[1] - c * n[1], H - c * un],
            [1, u[0], u[1], q],
            [0, t[0], t[1], dot(u, t)],
            [1, u[0] + c * n[0], u[1] + c * n[1], H + c * un]]


def combine(coeffs, vectors):
    return [dot(coeffs, [v[i] for v in vectors]) for i in range(len(vectors[0]))]


def abs_(x):
    return x if x > 0 else -x


def pos_(x):
    return x if x > 0 else 0


def neg_(x):
    return x if x < 0 else 0
