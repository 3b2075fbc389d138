"""Symbolic side of the environment a scenario talks to."""
from __future__ import annotations

import contextlib
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import sym
from . import engine as _eng
from .engine import (Engine, Enough, Num, SymBool, Infeasible, StopPath, PathLimit, lift, mkbool, f_and, f_not, f_or,
                     model_value, set_engine, _formula)
from .sym import Sc, EncodingError


def _scratch(base=[None]):
    """a new empty working directory for this run"""
    import os
    import tempfile
    base[0] = base[0] or os.getcwd()
    d = tempfile.mkdtemp(prefix='run_', dir=base[0])
    os.chdir(d)
    return d


class Candidate:
    def __init__(self, scenario, label, models, detail=''):
        self.scenario = scenario
        self.label = label
        self.models = models        # list of input dicts
        self.detail = detail


def lift_point(p):
    return [c if isinstance(c, Num) else Num(lift(c)) for c in p[:2]]


class SymEnv:
    symbolic = True

    def __init__(self, eng: Engine, scenario, result, thorough=False):
        self.e = eng
        self.scenario = scenario
        self.result = result
        self.thorough = thorough
        self.hints = []

    # -------------------------------------------------------------- inputs
    def _input(self, name, sc, kind):
        if name in self.e.inputs:
            raise RuntimeError(f"input {name} declared twice")
        self.e.inputs[name] = {'kind': kind, 'sc': sc}

    def real(self, name, lo=None, hi=None, positive=False, nonneg=False, nonzero=False, above=None, below=None, is_decimal=None):
        s = Sc.var(name)
        self._input(name, s, 'real')
        n = Num(s)
        e = self.e
        if positive:
            e.assume(n > 0)
        if nonneg:
            e.assume(n >= 0)
        if nonzero:
            e.assume(n != 0)
        if lo is not None:
            e.assume(n >= lo)
        if hi is not None:
            e.assume(n <= hi)
        if above is not None:
            e.assume(n > above)
        if below is not None:
            e.assume(n < below)
        return n

    def int(self, name, lo=None, hi=None):
        s = Sc.var(name, True)
        self._input(name, s, 'int')
        n = Num(s, True)
        if lo is not None:
            self.e.assume(n >= lo)
        if hi is not None:
            self.e.assume(n <= hi)
        return n

    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def choose(self, name, options):
        options = list(options)
        n = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if n == i:
                return options[i]
        return options[-1]

    def reals(self, names, **kw):
        return [self.real(n, **kw) for n in names.split()]

    def decimal(self, name, digits, lo=0, hi=10):
        """A decimal number k / 10^digits with up to that many fractional digits, as
        (float, exact): the float differs from the decimal by an unknown rounding error."""
        k = self.int(name, lo * 10**digits, hi * 10**digits)
        self.e.inputs[name]['kind'] = ('decimal', digits)
        e = self.e
        exact = Num(k.sc / Sc.const(10**digits))
        v = exact
        if digits:
            err = e.fresh('fp')
            # rounding to the nearest float; zero is exact
            tiny = exact.sc * Sc.const(Fraction(1, 2**52)) if lo >= 0 else Sc.const(Fraction(hi, 2**51))
            e.assume(e.rel('<=', err, tiny))
            e.assume(e.rel('>=', err, -tiny))
            v = Num(exact.sc + err)
            if lo == 0:
                e.assume(v >= 0)
        e.decimals[v.sc.key()] = digits
        return v, exact

    def scratch(self):
        return _scratch()

    def nan(self):
        v = self.e.fresh('nan')
        self.e.nans |= v.vars()
        return Num(v, nan=True)

    def matrix(self, rows):
        from ngsolve import _fe
        m = _fe.Matrix(None, 'given')
        ent = [[lift(x) for x in r] for r in rows]

        def apply(v):
            v = list(v)
            out = []
            for r in ent:
                t = sym.S0
                for a, b in zip(r, v):
                    t = t + a * b
                out.append(t)
            return out
        m.apply = apply
        return m

    def vector(self, values):
        from ngsolve import _fe
        v = _fe.BaseVector(len(values))
        for i, x in enumerate(values):
            v[i] = x
        return v

    def applied(self, cfg, blf, state):
        """the form applied to a state (spaces of cell constants, a single cell of volume 1)"""
        return self._tested(cfg, blf, {cfg.TnT[n][0]: x for n, x in zip(cfg.spaces, state)})

    def loaded(self, cfg, lf):
        return self._tested(cfg, lf, {})

    def _tested(self, cfg, form, bind):
        out = []
        for i in range(len(cfg.spaces)):
            b = dict(bind)
            for j, n in enumerate(cfg.spaces):
                b[cfg.TnT[n][1]] = 1 if i == j else 0
            t = 0
            for it in form.integrals():
                t = t + it.factor * self.value(it.coef, b)[0]
            out.append(t)
        return out

    def same_number(self, label, a, exact):
        """a is the float nearest to the exact value"""
        self.eq(label, a, exact)

    def unit_vector(self, name, dim=2):
        cs = [Sc.var(f"{name}{i}") for i in range(dim)]
        for i, c in enumerate(cs):
            self._input(f"{name}{i}", c, 'real')
        tot = sym.S0
        for c in cs:
            tot = tot + c * c
        self.e.assumptions.append(self.e.rel('==', tot, sym.S1))
        last = cs[-1]
        (m, _), = last.num.items()
        rhs = sym.S1
        for c in cs[:-1]:
            rhs = rhs - c * c
        sym.RULES[m[0][0]] = (2, rhs.num)
        vals = {2: [(3, 4, 5)], 3: [(2, 3, 6, 7)]}[dim] if dim > 1 else []
        if dim == 2:
            self.hints += [{f"{name}0": Fraction(1), f"{name}1": Fraction(0)}, {f"{name}0": Fraction(3, 5), f"{name}1": Fraction(4, 5)},
                           {f"{name}0": Fraction(-5, 13), f"{name}1": Fraction(12, 13)}]
        elif dim == 3:
            self.hints += [{f"{name}0": Fraction(2, 7), f"{name}1": Fraction(3, 7), f"{name}2": Fraction(6, 7)}]
        return [Num(c) for c in cs]

    def assume(self, cond):
        self.e.assume(cond)

    def stop(self):
        raise StopPath()

    # -------------------------------------------------------------- meshes
    def strip(self, materials=('default',), bottom='bottom', top='top', left='left', right='right', periodic=False):
        import ngsolve as ngs
        n = self.mesh_cells = len(materials)
        bottom = [bottom] * n if isinstance(bottom, str) else list(bottom)
        top = [top] * n if isinstance(top, str) else list(top)
        facets = bottom + top + [left] + [None] * (n - 1) + [right]
        cells = [(m, (i, 2 * n + i + 1, n + i, 2 * n + i)) for i, m in enumerate(materials)]
        pts = [(i, 0) for i in range(n + 1)] + [(i, 1) for i in range(n + 1)]
        ends = [(i, i + 1) for i in range(n)] + [(n + 2 + i, n + 1 + i) for i in range(n)] + [(n + 1, 0)] + [()] * (n - 1) + [(n, 2 * n + 1)]
        return ngs.Mesh({'dim': 2, 'cells': cells, 'facets': facets, 'points': pts, 'strip': n, 'boundary_vertices': dict(enumerate(ends)),
                         'periodic': [((0, n), 1), ((n + 1, 2 * n + 1), 1)] if periodic else [],
                         'boundaries': list(dict.fromkeys(bottom + top + [left, right]))})

    def cube(self):
        import ngsolve as ngs
        return ngs.Mesh({'dim': 3, 'cells': [('default', (0, 1, 2, 3, 4, 5))], 'facets': ['left', 'right', 'front', 'back', 'bottom', 'top']})

    def mesh(self, dim):
        return self.strip() if dim == 2 else self.cube()

    def triangulation(self, mesh):
        """points, triangles and named boundary edges of a generated mesh"""
        m = mesh.ngmesh
        return ([tuple(lift_point(p)) for p in m.pts], [[v - 1 for v in e.vertices] for e in m.els2],
                [([v - 1 for v in e.points], m.bcnames.get(e.index - 1, 'default')) for e in m.els1])

    # --------------------------------------------------------------- forms
    @contextlib.contextmanager
    def recording(self, interpolants=None):
        import ngsolve as ngs
        keep = ngs.Interpolate
        if interpolants is not None:
            ngs.Interpolate = interpolants
        try:
            yield
        finally:
            ngs.Interpolate = keep

    def region_names(self, region):
        return list(region.Names())

    def facet(self, name, i=0):
        """number of a facet of the strip mesh: bottom/top of cell i, left, right, inner (between cells i and i+1)"""
        n = self.mesh_cells
        return {'bottom': i, 'top': n + i, 'left': 2 * n, 'inner': 2 * n + 1 + i, 'right': 3 * n}[name]

    # ---------------------------------------------------------- evaluation
    def value(self, cf, bind=None, point=None, region=None, facet=None, element=None):
        """component values of a coefficient function at one point"""
        from ngsolve import _cf
        if lift(cf) is not None:
            return [cf if isinstance(cf, Num) else Num(lift(cf))]
        b = {}
        keep = []
        for k, v in (bind or {}).items():
            if not isinstance(v, (list, tuple)):
                v = [v]
            b[id(k)] = [lift(x) for x in v]
            keep.append(k)
        if point is not None:
            b['point'] = ([lift(x) for x in point] + [None] * 3)[:3]
        ctx = _cf.Ctx(b, region, facet, element)
        return [Num(s) for s in cf._eval(ctx)]

    def num(self, cf, *a, **k):
        v = self.value(cf, *a, **k)
        assert len(v) == 1, "scalar expected"
        return v[0]

    def deriv(self, fn, args, direction):
        """directional derivative of fn at args"""
        e = self.e
        eps = e.fresh('eps')
        before = set(e.fns)
        (m, _), = eps.num.items()
        vid = m[0][0]
        e.infinitesimal.add(vid)
        try:
            out = fn([Num(lift(a) + eps * lift(d)) for a, d in zip(args, direction)])
        finally:
            e.infinitesimal.discard(vid)
        name = sym.VARS.names[vid]
        res = []
        for o in out:
            s = lift(o)
            for k in e.fns.keys() - before:
                w = e.fns[k]
                if w.vars() & s.vars() and any(vid in _key_vars(x) for x in k[1:]):
                    raise EncodingError("derivative through a function symbol")
            res.append(Num(s.diff(name).subs({vid: sym.S0})))
        return res

    # --------------------------------------------------------------- goals
    def _models(self, neg, tries=4):
        """input assignments falsifying the goal"""
        e = self.e
        res, m = e.check(e.base() + [neg], e.timeout_ms)
        if res == 'unsat':
            return 'unsat', []
        out = []
        raw = [self._extract(m)] if m is not None else []
        nice = self._nice()
        attempts = [nice + self._hint(h) for h in self.hints] + [nice]
        seen = set()
        for extra in attempts[:tries]:
            r, mm = e.check(e.base() + [neg] + extra, 4000)
            if mm is not None:
                v = self._extract(mm)
                if str(v) not in seen:
                    seen.add(str(v))
                    out.append(v)
        return res, out + raw

    def _hint(self, h):
        e = self.e
        return [_z(e.rel('==', e.inputs[k]['sc'], Sc.const(v))) for k, v in h.items() if k in e.inputs]

    def _nice(self):
        e = self.e
        out = []
        for n, d in e.inputs.items():
            if d['kind'] == 'real':
                a, b = Sc.const(Fraction(1, 8)), Sc.const(8)
                s = d['sc']
                pos = f_and(e.rel('>=', s, a), e.rel('<=', s, b))
                neg = f_and(e.rel('<=', s, -a), e.rel('>=', s, -b))
                out.append(_z(f_or(pos, neg)))
        return out

    def _extract(self, m):
        out = {}
        for n, d in self.e.inputs.items():
            v = model_value(m, self.e.poly(d['sc'].num))
            out[n] = None if v is None else str(v)
        return out

    def prove(self, label, cond, gap=None, detail=''):
        """goal: cond holds on this path for all inputs.  `gap`: stronger negations
        tried first so that a counterexample is visible in floating point."""
        r = self.result
        f = _formula(cond)
        r['goals'] += 1
        r['labels'].add(label)
        e = self.e
        neg = f_not(f)
        if isinstance(neg, bool):
            neg = z3.BoolVal(neg)
        if f is True:
            e.discharged += 1       # holds by the normal form of its terms alone
            return
        key = (self.scenario, label)
        verdict, models = None, []
        if r['failed'].get(key, 0) >= 3:
            return
        _enough(r, self.thorough)
        if gap is not None:
            verdict0, models0 = ('skip', [])
        verdict, models = self._models(neg)
        if verdict == 'unsat':
            e.discharged += 1
            return
        if gap is not None:
            g = f_not(_formula(gap)) if not z3.is_expr(gap) else gap
            if not isinstance(g, bool):
                v2, m2 = self._models(g)
                models = m2 + models
        if verdict == 'unknown' and not models:
            e.unknown += 1
            r['unknown'].append((label, self._pathnote()))
            return
        r['failed'][key] = r['failed'].get(key, 0) + 1
        r['candidates'].append(Candidate(self.scenario, label, models, detail))

    def _pathnote(self):
        return [bool(x) for x in self.e.trace]

    def holds(self, label, cond, detail=''):
        """proves cond; tells whether it holds already by its form"""
        self.prove(label, cond, detail=detail)
        return _formula(cond) is True

    def eq(self, label, a, b, tol=None):
        """componentwise equality for all inputs"""
        e = self.e
        a, b = _flat(a), _flat(b)
        if len(a) != len(b):
            self.prove(label, False, detail=f"{len(a)} components, expected {len(b)}")
            return
        fs, gaps = [], []
        for x, y in zip(a, b):
            sx, sy = lift(x), lift(y)
            nan = f_or(getattr(x, 'nan', False), getattr(y, 'nan', False))
            f = _eqf(e, sx, sy)
            if nan is not False:
                f = f_and(f_not(nan), f)
            fs.append(f)
            d = sx - sy
            if not d.const_value() == 0:
                g = Sc.const(Fraction(1, 50))
                gaps.append(f_or(e.rel('>', d, g), e.rel('<', d, -g)))
        self.prove(label, f_and(*fs), gap=z3.Or(*[_z(g) for g in gaps]) if gaps else None)

    def le(self, label, a, b, tol=None):
        self.prove(label, Num(lift(a)) <= Num(lift(b)), gap=Num(lift(a)) <= Num(lift(b)) + Num(Sc.const(Fraction(1, 50))))

    def lt(self, label, a, b):
        self.prove(label, Num(lift(a)) < Num(lift(b)), gap=Num(lift(a)) < Num(lift(b)) + Num(Sc.const(Fraction(1, 50))))

    def known(self, label, a, truth, wrong, finding):
        """a equals truth; or the recorded finding `wrong` (reported, not raised)"""
        e = self.e
        a_, t_, w_ = _flat(a), _flat(truth), _flat(wrong)
        bad = f_not(f_and(*[_eqf(e, lift(x), lift(y)) for x, y in zip(a_, t_)]))
        ok = f_and(*[_eqf(e, lift(x), lift(y)) for x, y in zip(a_, w_)])
        if not isinstance(ok, bool) or ok:
            r, m = e.check(e.base() + [_z(f_not(ok))])
            if r == 'unsat':
                r2, m2 = e.check(e.base() + [_z(bad)])
                if r2 == 'sat':
                    self.result['findings'].add(finding)
                    self.result['finding_inputs'][finding] = self._extract(m2)
                    return
        self.eq(label, a, truth)

    def known_error(self, label, fn, exc, finding):
        """fn() must not fail; the recorded finding is that it raises exc"""
        try:
            return fn()
        except exc as err:
            self.result['findings'].add(finding)
            self.result['finding_inputs'][finding] = self._extract(self.e.check(self.e.base())[1])
            return None

    def raises(self, label, exc, fn):
        """fn() must raise exc on this path"""
        self.result['labels'].add(label)
        self.result['goals'] += 1
        try:
            fn()
        except exc:
            return True
        except EncodingError:
            raise
        except Exception as err:
            self.prove(label, False, detail=f"raised {type(err).__name__} instead: {err}")
            return False
        self.prove(label, False, detail="did not raise")
        return False

    def refused(self, fn):
        """result of fn(), or None if it raised an Exception"""
        try:
            return fn()
        except EncodingError:
            raise
        except Exception as err:
            self.last_error = err
            return None

    def fail(self, label, detail=''):
        self.prove(label, False, detail=detail)

    def note(self, *a):
        pass

    def same_text(self, label, a, b):
        self.prove(label, a == b, detail=f"{a!r} != {b!r}")


def _key_vars(x):
    if isinstance(x, tuple) and len(x) == 2:
        try:
            return _eng._sc_of_key(x).vars()
        except Exception:
            return set()
    return set()


def _eqf(e, a, b):
    """a == b with both sides cross multiplied, left to the solver"""
    d = a - b
    c = d.const_value()
    if c is not None and c != 0:
        return False
    if d.is_zero():
        p = a.num
        if len(p) > 400:
            return True
        return e.poly(e.scale_int(p)) == e.poly(e.scale_int(p)) if p else True
    return e.rel('==', a, b)


def _z(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def _flat(a):
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out += _flat(x)
        return out
    if hasattr(a, 'tolist') and not isinstance(a, Num):
        return _flat(a.tolist())
    return [a]


def _enough(result, thorough):
    if result['candidates']:
        first = result.setdefault('first', time.time())
        if time.time() - first > (300 if thorough else 75):
            result['cut'] = True
            raise Enough()


def new_result():
    return {'goals': 0, 'labels': set(), 'candidates': [], 'unknown': [], 'failed': {}, 'findings': set(),
            'finding_inputs': {}, 'errors': [], 'witnesses': [], 'paths': 0}


def run_scenario(name, fn, thorough, timeout_ms=20000, max_paths=3000, witness_cap=40):
    eng = Engine(timeout_ms=timeout_ms, max_paths=max_paths)
    set_engine(eng)
    result = new_result()
    result['engine'] = eng
    t0 = time.time()

    def one():
        env = SymEnv(eng, name, result, thorough)
        err = None
        _enough(result, thorough)
        try:
            fn(env)
        except EncodingError as ex:
            result['errors'].append((name, f"cannot encode: {ex}", traceback.format_exc(limit=-4)))
            err = ex
        except Exception as ex:
            # the code under test failed on this path: candidate violation, decided by the replay
            r, m = eng.check(eng.base())
            if r != 'unsat':
                models = []
                r2, m2 = eng.check(eng.base() + env._nice(), 4000)
                if m2 is not None:
                    models.append(env._extract(m2))
                if m is not None:
                    models.append(env._extract(m))
                label = f"exception {type(ex).__name__}"
                key = (name, label)
                result['failed'][key] = result['failed'].get(key, 0) + 1
                if result['failed'][key] <= 4:
                    result['candidates'].append(Candidate(name, label, models, traceback.format_exc(limit=-5)))
            err = ex
        if err is None and len(result['witnesses']) < witness_cap:
            for h in env.hints + [{}]:
                r, m = eng.check(eng.base() + env._nice() + env._hint(h), 3000)
                if m is not None:
                    break
            if m is None:
                r, m = eng.check(eng.base(), 5000)
            if r == 'unsat':
                raise Infeasible()
            if m is not None:
                result['witnesses'].append(env._extract(m))
    try:
        eng.explore(one)
    except Enough:
        pass
    except PathLimit as ex:
        result['errors'].append((name, f"path limit: {ex}", ''))
    result['paths'] = eng.paths
    result['time'] = time.time() - t0
    result['stats'] = {k: getattr(eng, k) for k in ('queries', 'discharged', 'solver_s', 'unknown', 'paths', 'infeasible_paths', 'decisions_made')}
    del result['engine']
    set_engine(None)
    return result
