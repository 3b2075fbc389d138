"""C01 thermodynamic closure."""
from props.common import *

META = {
    'bounds': 'space dimension 2 and 3; every subset of the 14 state quantities (presence symbolic); all real values of '
              'density>0, speed of sound>0, velocity, gamma>1',
    'outside': ['states with non-positive density or temperature', 'mutually inconsistent fields'],
}

SCALARS = list(NAMES)

# combinations promised by the documentation: they must be answered
DOCUMENTED = {
    'rho': [('p', 'T'), ('p', 'c'), ('rho_Ei', 'T')],
    'p': [('rho', 'T'), ('rho_Ei',), ('rho', 'c')],
    'T': [('p', 'rho'), ('Ei',), ('c',)],
    'rho_Ei': [('p',), ('rho', 'T'), ('rho_E', 'rho_Ek')],
    'Ei': [('T',), ('p', 'rho'), ('rho', 'rho_Ei'), ('E', 'Ek')],
    'c': [('p', 'rho'), ('T',)],
    'u': [('rho', 'rho_u')],
    'rho_u': [('rho', 'u')],
    'rho_Ek': [('rho', 'u'), ('rho', 'rho_u'), ('rho_E', 'rho_Ei'), ('rho', 'Ek')],
    'Ek': [('u',), ('rho', 'rho_u'), ('rho', 'rho_Ek'), ('E', 'Ei')],
    'rho_E': [('rho', 'E'), ('rho_Ei', 'rho_Ek'), ('p', 'rho', 'u'), ('rho', 'T', 'rho_u')],
    'E': [('rho', 'rho_E'), ('Ei', 'Ek')],
    'rho_H': [('rho_E', 'p'), ('rho', 'H')],
    'H': [('rho', 'rho_H'), ('rho', 'rho_E', 'p')],
}


def subset(key, dim):
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        tr = state(env, dim, g)
        U = lazy_fields(env, {k: cf(v) for k, v in tr.items()})
        try:
            got = getattr(cfg, NAMES[key])(U)
        except ValueError:
            env.holds('only what is neither given nor determined is refused',
                      not any(all(getattr(U, k) is not None for k in keys) for keys in [(key,)] + DOCUMENTED.get(key, [])))
            return
        value = env.value(got)
        if key == 'c' and U.c is None and U.T is None and U.Ei is not None and (U.rho is None or U.p is None):
            env.known(f"{NAMES[key]} from any subset", value, tr[key], [known_c(env, tr, g)], 'speed-of-sound-from-specific-inner-energy')
        else:
            env.eq(f"{NAMES[key]} from any subset", value, tr[key])
    return run


def known_c(env, tr, g):
    # the recorded finding: sqrt((gamma-1)/gamma * Ei) when only Ei is given
    import ngsolve as ngs
    return env.num(ngs.sqrt(cf((g - 1) * tr['Ei'] / g)))


def documented(key, keys, dim):
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        tr = state(env, dim, g)
        U = fields(tr, keys)
        got = env.refused(lambda: getattr(cfg, NAMES[key])(U))
        if got is None:
            env.fail(f"{NAMES[key]} is determined by {','.join(keys)}", str(env.last_error))
            return
        env.eq(f"{NAMES[key]} from {','.join(keys)}", env.value(got), tr[key])
    return run


def numbers(dim):
    """local Mach and Reynolds numbers (viscosity law: constant, mu = 1)"""
    def run(env):
        g = gas(env)
        cfg = solver(env, dim, g)
        cfg.dynamic_viscosity = 'constant'
        tr = state(env, dim, g)
        U = fields(tr, env.choose('given', [('rho', 'u', 'c'), ('rho', 'rho_u', 'p'), ('rho', 'rho_u', 'T'), ('u', 'T', 'rho', 'p')]))
        Ma = env.num(cfg.get_local_mach_number(U))
        Re = env.num(cfg.get_local_reynolds_number(U))
        q = dot(tr['u'], tr['u'])
        env.eq('Mach number squared', Ma * Ma * tr['c'] * tr['c'], q)
        env.le('Mach number is not negative', 0, Ma)
        env.eq('Reynolds number squared', Re * Re, tr['rho'] * tr['rho'] * q)
        env.le('Reynolds number is not negative', 0, Re)
    return run


def isentrope(env):
    """rho/rho_ref = (p/p_ref)^(1/gamma) = (T/T_ref)^(1/(gamma-1)), whatever else is given"""
    g = gas(env)
    cfg = solver(env, 2, g)
    tr = state(env, 2, g)
    ref = state(env, 2, g, '_ref')
    U = lazy_fields(env, {k: cf(v) for k, v in tr.items()})
    V = lazy_fields(env, {k: cf(v) for k, v in ref.items()}, 'ref_has_')
    try:
        got = cfg.isentropic_density(U, V)
    except ValueError:
        env.holds('refused', True)
        return
    if U.p is not None and V.p is not None:
        want = ref['rho'] * (tr['p'] / ref['p']) ** (1 / g)
    else:
        want = ref['rho'] * (tr['T'] / ref['T']) ** (1 / (g - 1))
    env.eq('isentropic density', env.value(got), want)


def second_state(env, dim, g):
    rho, c = env.real('rho2', positive=True), env.real('c2', positive=True)
    return truth(rho, c, [env.real(f"u2{i}") for i in range(dim)], g)


REUSED = [('rho', 'p', 'u'), ('rho', 'rho_u', 'rho_E'), ('T', 'p', 'u'), ('rho', 'T', 'rho_u'), ('rho', 'rho_Ei', 'u')]


def reused(env):
    """a set of quantities that is changed describes its new state, whatever was derived from it before"""
    g = gas(env)
    cfg = solver(env, 2, g)
    tr, new = state(env, 2, g), second_state(env, 2, g)
    keys = env.choose('given', REUSED)
    U = fields(tr, keys)

    def derived():
        out = {}
        for k in NAMES:
            got = env.refused(lambda: getattr(cfg, NAMES[k])(U))
            if got is not None:
                out[k] = got
        return out
    first = derived()
    for k, v in first.items():
        env.eq(f"first {k}", env.value(v), tr[k])
    for k in keys:
        setattr(U, k, cf(new[k]))
    second = derived()
    env.holds('the same can be determined', set(first) == set(second))
    for k, v in second.items():
        env.eq(f"second {k}", env.value(v), new[k])


def written(env):
    """quantities written one after another, under symbol or name and in any form, replaced or taken back: the last one counts"""
    from dream.compressible import flowfields
    g = gas(env)
    cfg = solver(env, 2, g)
    tr, new = state(env, 2, g), second_state(env, 2, g)
    first = env.choose('given', [('rho', 'p'), ('rho_Ei', 'T'), ('p', 'c')])
    forms = {'symbol': lambda k, v: flowfields(**{k: v}), 'name': lambda k, v: flowfields({NAMES[k]: v}), 'mixed': lambda k, v: flowfields({NAMES[k]: v})}
    how = env.choose('construction', list(forms))
    U = forms[how](first[0], cf(tr[first[0]]))
    if how == 'mixed':
        U.update(forms['symbol'](first[1], cf(tr[first[1]])))
    else:
        U[first[1] if how == 'symbol' else NAMES[first[1]]] = cf(tr[first[1]])
    have = {k: tr[k] for k in first}
    extra = env.choose('then', ['nothing', 'replaced', 'replaced by number', 'ignored', 'taken back', 'other taken back', 'copied'])
    by = env.choose('by', ['attribute', 'symbol', 'name', 'update'])
    k = first[1]
    if extra.startswith('replaced'):
        have[k] = new[k]
        v = cf(new[k]) if extra == 'replaced' else new[k]
        if by == 'attribute':
            setattr(U, k, v)
        elif by == 'update':
            U.update({k: v})
        else:
            U[k if by == 'symbol' else NAMES[k]] = v
    elif extra == 'ignored':
        setattr(U, k, None)
    elif extra == 'taken back':
        if by == 'attribute':
            delattr(U, k)
        elif by == 'symbol':
            U.pop(NAMES[k])
        else:
            del U[NAMES[k]]
        del have[k]
    elif extra == 'other taken back':
        if env.refused(lambda: U.pop('no_such_quantity')) is not None:
            env.fail('nothing there to take')
    elif extra == 'copied':
        V = flowfields(**U)
        setattr(V, k, cf(new[k]))
        V.E = cf(new['E'])
    env.holds('quantities', set(U) == {NAMES[q] for q in have} and len(U) == len(have), str(list(U)))
    for q in NAMES:
        got = getattr(U, q)
        env.holds(f"{q} is given or not", (got is not None) == (q in have))
        if q in have:
            env.eq(q, env.value(got), have[q])
            env.eq(f"{q} returned as given", env.value(getattr(cfg, NAMES[q])(U)), have[q])
    fresh = flowfields(**{q: cf(v) for q, v in have.items()})
    for q in ('rho', 'p', 'T', 'rho_Ei', 'c', 'Ei'):
        a, b = [env.refused(lambda: getattr(cfg, NAMES[q])(x)) for x in (U, fresh)]
        env.holds('the same can be determined', (a is None) == (b is None))
        if a is not None and b is not None:
            env.eq(f"derived {q}", env.value(a), env.value(b))


def scenarios(thorough):
    from props.live import follows, thermodynamics
    out = [('follows', follows(thermodynamics, names=('gamma',))), ('numbers 2d', numbers(2)), ('numbers 3d', numbers(3)), ('isentropic density', isentrope), ('reused', reused), ('written', written)]
    for dim in (2, 3):
        for k in SCALARS:
            out.append((f"{NAMES[k]} {dim}d", subset(k, dim)))
    for k, combos in DOCUMENTED.items():
        for keys in combos:
            out.append((f"documented {k} <- {','.join(keys)}", documented(k, keys, 2)))
    return out
