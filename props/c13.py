"""C13 viscosity laws."""
from props.common import *

META = {
    'bounds': 'all temperatures>0, Mach numbers>0, gamma>1, measurement and reference temperatures>0; three scalings; 2 and 3 dimensions; states '
              'given by temperature or by quantities from which the temperature follows',
    'outside': ['states without any temperature'],
}
SCALINGS = ['aerodynamic', 'acoustic', 'aeroacoustic']


def setup(env, law, scaling=None):
    g = gas(env)
    cfg = solver(env, env.choose('dim', [2, 3]), g)
    cfg.dynamic_viscosity = law
    cfg.scaling = scaling or env.choose('scaling', SCALINGS)
    M = env.real('M', positive=True)
    cfg.mach_number = M
    return g, cfg, M


def mu(env, cfg, T):
    from dream.compressible import flowfields
    return env.num(cf(cfg.viscosity(flowfields(T=T))))


def constant(env):
    g, cfg, M = setup(env, 'constant')
    env.eq('viscosity one', mu(env, cfg, env.real('T', positive=True)), 1)


def inviscid(env):
    g, cfg, M = setup(env, env.choose('name', ['inviscid', 'euler']))
    T = env.real('T', positive=True)
    env.raises('no viscosity', TypeError, lambda: mu(env, cfg, T))
    env.holds('recognised', cfg.dynamic_viscosity.is_inviscid)


def references(env, cfg):
    """measurement temperature and the temperature the far field stands for, both in Kelvin"""
    S, Tr = 110.4, 293.15
    if env.bool('measured'):
        S = env.real('S', positive=True)
        cfg.dynamic_viscosity.measurement_temperature = S
    if env.bool('reference'):
        Tr = env.real('T_ref', positive=True)
        cfg.scaling.dimensionful_values = {'T': Tr}
    return S, Tr


def sutherland(env):
    """viscosity over the one of the far field, in Kelvin: (T/T0)^(3/2) (T0 + S)/(T + S)"""
    g, cfg, M = setup(env, 'sutherland')
    S, Tr = references(env, cfg)
    r = env.real('r', positive=True)            # square root of T over far-field temperature
    Tinf = env.num(cfg.get_farfield_state((1, 0) if cfg.mesh.dim == 2 else (1, 0, 0)).T)
    got = mu(env, cfg, r * r * Tinf)
    T = r * r * Tr
    env.eq("Sutherland's law", got * (T + S), r * r * r * (Tr + S))
    env.lt('positive', 0, got)
    env.eq('one in the far field', mu(env, cfg, Tinf), 1)
    s = env.real('s', positive=True)
    env.assume(r < s)
    env.lt('grows with temperature', got, mu(env, cfg, s * s * Tinf))


def same(env):
    """the same physical temperature has the same viscosity ratio in every scaling"""
    g, cfg, M = setup(env, 'sutherland', 'aerodynamic')
    S, Tr = references(env, cfg)
    r = env.real('r', positive=True)
    out = []
    for name in SCALINGS:
        cfg.scaling = name
        cfg.scaling.dimensionful_values = {'T': Tr}
        Tinf = env.num(cfg.get_farfield_state((1, 0) if cfg.mesh.dim == 2 else (1, 0, 0)).T)
        out.append(mu(env, cfg, r * r * Tinf))
    env.eq('independent of the scaling', out[1:], [out[0]] * 2)


def derived(env):
    """the viscosity of a flow state follows from its temperature however the state is given"""
    g, cfg, M = setup(env, 'sutherland')
    tr = state(env, cfg.mesh.dim, g)
    U = fields(tr, env.choose('given', [('T',), ('rho', 'T'), ('rho', 'u', 'p', 'T')]))
    env.eq('viscosity from temperature', env.num(cf(cfg.viscosity(U))), mu(env, cfg, tr['T']))
    F = fields(tr, ('rho', 'u', 'p'))
    F.T = cfg.temperature(F)
    env.eq('viscosity from derived temperature', env.num(cf(cfg.viscosity(F))), mu(env, cfg, tr['T']))


def scenarios(thorough):
    from props.live import follows, diffusion
    return [('follows', follows(diffusion, scaling=['aerodynamic', 'acoustic', 'aeroacoustic'], viscosity='sutherland')), ('constant', constant), ('inviscid', inviscid), ('sutherland', sutherland), ('same', same), ('derived', derived)]
