"""The weak forms the code builds, and their integrands at one point.

A site is where an integrand lives: ('cell', material), ('facet', facet id,
element number) for element boundaries, ('boundary', region name) for the facets
of a boundary region."""
import re


class Forms:
    def __init__(self, env, cfg):
        self.env = env
        self.cfg = cfg
        self.blf = cfg.blf
        self.lf = cfg.lf

    def integrals(self, keys=None, form='blf'):
        for name, s in getattr(self, form).items():
            if keys is None or name in keys or any(callable(k) and k(name) for k in keys):
                for it in s:
                    yield name, it

    def active(self, it, site):
        sym = it.symbol
        dom = sym.domain()
        if dom == 'cell' and site[0] == 'cell' or dom == 'cellboundary' and site[0] == 'facet' or dom == 'boundary' and site[0] == 'boundary':
            on = sym.definedon
            if on is None:
                return True
            if site[0] == 'facet':
                raise NotImplementedError
            if isinstance(on, str):
                return re.fullmatch(on, site[1]) is not None
            return self.env.region_names(on).count(site[1]) > 0
        return False

    def total(self, site, bind, keys=None, form='blf', point=None):
        """sum of all integrands active at the site"""
        env = self.env
        tot = 0
        for name, it in self.integrals(keys, form):
            if self.active(it, site):
                kw = {}
                if site[0] == 'facet':
                    kw = {'facet': site[1], 'element': site[2]}
                elif site[0] == 'cell' and len(site) > 2:
                    kw = {'region': site[2], 'element': site[2]}
                v = env.value(it.coef, bind, point=point, **kw)
                assert len(v) == 1, "an integrand is a scalar"
                tot = tot + it.factor * v[0]
        return tot


def settled(cfg):
    """sets the parameters that are only known after the forms were built"""
    for settle in getattr(cfg, 'settled_later', ()):
        settle()


def build(env, cfg, interpolants=None):
    cfg.initialize_finite_element_spaces()
    cfg.initialize_trial_and_test_functions()
    cfg.initialize_gridfunctions()
    cfg.set_boundary_conditions()
    with env.recording(interpolants):
        cfg.time.initialize()
        cfg.initialize_symbolic_forms()
    settled(cfg)
    return Forms(env, cfg)
