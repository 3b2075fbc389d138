"""C02 gradient equations obey the chain and product rule."""
from props.common import *

META = {
    'bounds': 'space dimension 2 and 3; every subset of the 14 state quantities and of their gradients (presence symbolic); '
              'all real values of density>0, speed of sound>0, velocity, their gradients, gamma>1',
    'outside': ['mutually inconsistent fields'],
}

GRADS = {'rho': 'density', 'u': 'velocity', 'rho_u': 'momentum', 'p': 'pressure', 'T': 'temperature', 'rho_E': 'energy',
         'E': 'specific_energy', 'rho_Ei': 'inner_energy', 'Ei': 'specific_inner_energy', 'rho_Ek': 'kinetic_energy',
         'Ek': 'specific_kinetic_energy', 'rho_H': 'enthalpy'}

DOCUMENTED = {
    'rho': [('p', 'T'), ('rho_Ei', 'T')],
    'u': [('rho', 'rho_u')],
    'rho_u': [('rho', 'u')],
    'p': [('rho', 'T'), ('rho_Ei',)],
    'T': [('p', 'rho'), ('Ei',)],
    'rho_E': [('rho_Ei', 'rho_Ek')],
    'E': [('Ei', 'Ek')],
    'rho_Ei': [('rho_E', 'rho_Ek')],
    'Ei': [('E', 'Ek')],
    'rho_Ek': [('rho_E', 'rho_Ei'), ('rho', 'u'), ('rho', 'rho_u')],
    'Ek': [('E', 'Ei'), ('u',), ('rho', 'rho_u')],
    'rho_H': [('rho_E', 'p')],
}


def gradients(env, tr, g, dim, suffix=''):
    """truth gradients: scalar -> vector, vector -> row major matrix (d u_i / d x_j)"""
    grho = [env.real(f"drho{j}{suffix}") for j in range(dim)]
    gc = [env.real(f"dc{j}{suffix}") for j in range(dim)]
    gu = [[env.real(f"du{i}{j}{suffix}") for j in range(dim)] for i in range(dim)]
    keys = list(NAMES)

    def fn(args):
        t = truth(args[0], args[1], list(args[2:]), g)
        out = []
        for k in keys:
            out += t[k] if isinstance(t[k], list) else [t[k]]
        return out
    cols = [env.deriv(fn, [tr['rho'], tr['c']] + tr['u'], [grho[j], gc[j]] + [gu[i][j] for i in range(dim)]) for j in range(dim)]
    out = {}
    pos = 0
    for k in keys:
        n = dim if isinstance(tr[k], list) else 1
        out[k] = [cols[j][pos + i] for i in range(n) for j in range(dim)]
        pos += n
    return out


def gcf(v, dim):
    import ngsolve as ngs
    return ngs.CF(tuple(v), dims=(dim, dim)) if len(v) == dim * dim else ngs.CF(tuple(v))


def subset(key, dim):
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        tr = state(env, dim, g)
        gr = gradients(env, tr, g, dim)
        U = lazy_fields(env, {k: cf(v) for k, v in tr.items()})
        dU = lazy_fields(env, {f"grad_{k}": gcf(v, dim) for k, v in gr.items()}, 'dhas_')
        try:
            got = getattr(cfg, f"{GRADS[key]}_gradient")(U, dU)
        except ValueError:
            env.holds('only what is neither given nor determined is refused', getattr(dU, f"grad_{key}") is None and not any(
                all(getattr(U, k) is not None and getattr(dU, f"grad_{k}") is not None for k in keys) for keys in DOCUMENTED[key]))
            return
        env.eq(f"{GRADS[key]} gradient", env.value(got), gr[key], tol=1e-5)
    return run


def documented(key, keys, dim):
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        tr = state(env, dim, g)
        gr = gradients(env, tr, g, dim)
        U = fields(tr, keys)
        from dream.compressible import flowfields
        dU = flowfields(**{f"grad_{k}": gcf(gr[k], dim) for k in keys})
        got = env.refused(lambda: getattr(cfg, f"{GRADS[key]}_gradient")(U, dU))
        if got is None:
            env.fail(f"gradient of {key} is determined by {','.join(keys)}", str(env.last_error))
            return
        env.eq(f"gradient of {key} from {','.join(keys)}", env.value(got), gr[key], tol=1e-5)
    return run


def reused(env):
    """quantities and gradients that are changed describe the new flow, whatever was derived from them before"""
    g = gas(env)
    cfg = solver(env, 2, g)
    from dream.compressible import flowfields
    keys = env.choose('given', [('rho', 'p', 'u'), ('rho', 'rho_u', 'rho_E'), ('rho', 'T', 'u')])
    U, dU = flowfields(), flowfields()
    for suffix in ('', '_new'):
        tr = state(env, 2, g, suffix)
        gr = gradients(env, tr, g, 2, suffix)
        for k in keys:
            setattr(U, k, cf(tr[k]))
            setattr(dU, f"grad_{k}", gcf(gr[k], 2))
        for k, name in GRADS.items():
            got = env.refused(lambda: getattr(cfg, f"{name}_gradient")(U, dU))
            if got is not None:
                env.eq(f"{name} gradient{suffix}", env.value(got), gr[k], tol=1e-5)


def strain(dim, given):
    def run(env):
        cfg = solver(env, dim)
        gu = [env.real(f"du{i}{j}") for i in range(dim) for j in range(dim)]
        div = 0
        for i in range(dim):
            div = div + gu[i * dim + i]
        eps = [(gu[i * dim + j] + gu[j * dim + i]) / 2 - (div / 3 if i == j else 0) for i in range(dim) for j in range(dim)]
        dU = lazy_fields(env, {'grad_u': gcf(gu, dim), 'eps': gcf(eps, dim)}, 'dhas_')
        try:
            got = cfg.strain_rate_tensor(dU)
        except ValueError:
            env.holds('refused', dU.grad_u is None and dU.eps is None)
            return
        env.eq('strain rate tensor', env.value(got), eps)
    return run


def scenarios(thorough):
    out = [('reused', reused)]
    for dim in (2, 3):
        for k in GRADS:
            out.append((f"grad {GRADS[k]} {dim}d", subset(k, dim)))
        out.append((f"strain rate {dim}d", strain(dim, None)))
    for k, combos in DOCUMENTED.items():
        for keys in combos:
            for dim in (2, 3) if thorough else (2,):
                out.append((f"documented grad {k} <- {','.join(keys)} {dim}d", documented(k, keys, dim)))
    return out
