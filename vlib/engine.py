"""Path-forking symbolic execution of the real python code.

The code under test runs on `Num` values (see below).  A branch on a symbolic
condition asks z3 which sides are feasible under the assumptions and the path
condition; both feasible sides are explored (depth first, by re-execution).
Every property is a goal `assumptions /\\ path condition -> condition`, decided
by z3; a model of the negation is a candidate counterexample and is replayed on
the real library by harness.py.
"""
from __future__ import annotations

import math
import numbers
import time
from fractions import Fraction

import z3

from . import sym
from .sym import Sc, EncodingError, to_fraction


class Infeasible(BaseException):
    """The current path contradicts the assumptions."""


class PathLimit(BaseException):
    pass


class Enough(BaseException):
    """Counterexamples were found a while ago: the rest of the scenario need not be explored."""


class StopPath(BaseException):
    """A harness ends the current path."""


# --------------------------------------------------------------------- engine

class Engine:
    def __init__(self, timeout_ms=20000, max_paths=4000, max_decisions=400):
        self.timeout_ms = timeout_ms
        self.patience = 5000        # for the feasibility of a branch: undecided branches are followed
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.queries = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.infeasible_paths = 0
        self.decisions_made = 0
        self.z3cache = {}
        self._reset_path([])

    # path state
    def _reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.alternatives = []
        self.assumptions = []
        self.pc = []
        self.inputs = {}        # name -> dict(kind=, sc=)
        self.fns = {}           # (fn, key) -> Sc
        self.fresh_count = {}
        self.decimals = {}
        self.number_texts = {}
        self.nans = set()       # variables that stand for values that are not a number
        self.sign_cache = {}
        self.sign_known = {}
        self.texts = {}
        self.infinitesimal = set()
        self.atoms = {}         # formula id -> (formula, relation, polynomial)
        self.signs = {}         # polynomial -> signs it may have on this path
        self.equal = {}         # variables that the path condition gives in terms of others
        sym.reset_vars()
        sym.FACTORS.clear()
        self.z3cache = {}

    def fresh(self, prefix, is_int=False):
        n = self.fresh_count.get(prefix, 0)
        self.fresh_count[prefix] = n + 1
        return Sc.var(f"{prefix}#{n}", is_int)

    # --- translation
    def z3var(self, vid):
        v = self.z3cache.get(vid)
        if v is None:
            name = sym.VARS.names[vid]
            v = z3.Int(name) if sym.VARS.is_int[vid] else z3.Real(name)
            self.z3cache[vid] = v
        return v

    def poly(self, p):
        vs = sym.p_vars(p)
        all_int = bool(vs) and all(sym.VARS.is_int[v] for v in vs)
        if all_int and all(c.denominator == 1 for c in p.values()):
            conv = lambda v: self.z3var(v)
            const = lambda c: z3.IntVal(int(c))
        else:
            conv = lambda v: z3.ToReal(self.z3var(v)) if sym.VARS.is_int[v] else self.z3var(v)
            const = lambda c: z3.RealVal(str(c))
        terms = []
        for m, c in p.items():
            fs = [conv(v) for v, e in m for _ in range(e)]
            if c != 1 or not fs:
                fs = [const(c)] + fs
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            return const(Fraction(0)) if not all_int else z3.IntVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def scale_int(self, p):
        """multiply by a positive integer to clear coefficient denominators"""
        l = 1
        for c in p.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        return sym.p_scale(p, Fraction(l)) if l != 1 else p

    def rel(self, op, a: Sc, b: Sc):
        """z3 formula  a op b ; or a python bool when constant"""
        d = a - b
        if self.infinitesimal and self.infinitesimal & d.vars():
            d = d.subs({v: sym.S0 for v in self.infinitesimal})
        if self.equal:
            d = self.reduced(d)
        c = d.const_value()
        if c is not None:
            return {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        if op in ('==', '!='):
            p = self.scale_int(d.num)
            e = self.poly(p)
            f = e == 0 if op == '==' else e != 0
        else:
            p = self.scale_int(d.sign_poly())
            e = self.poly(p)
            f = {'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[op]
        if len(p) <= 20:
            self.atoms[f.get_id()] = (f, op, p)
        return f

    # --- equalities that follow from decisions of the path
    def reduced(self, d):
        try:
            return d.subs(self.equal) if d.vars() & self.equal.keys() else d
        except (EncodingError, ZeroDivisionError):
            return d

    def learn(self, f, val):
        atom = self.atoms.get(f.get_id())
        if atom is None:
            return
        _, op, p = atom
        signs = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}[op]
        if not val:
            signs = {-1, 0, 1} - signs
        lead = p[max(p)]
        q = sym.p_scale(p, 1 / Fraction(lead))
        if lead < 0:
            signs = {-x for x in signs}
        key = tuple(sorted(q.items()))
        now = self.signs[key] = self.signs.get(key, {-1, 0, 1}) & signs
        if now != {0}:
            return
        if self.equal:
            q = self.reduced(Sc(q)).num
        for m in sorted(q, reverse=True):
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if sym.VARS.is_int[v] or v in sym.RULES or any(v == w for n in q if n != m for w, _ in n):
                    continue
                t = Sc({n: -c / q[m] for n, c in q.items() if n != m})
                self.equal = {w: x.subs({v: t}) for w, x in self.equal.items()}
                self.equal[v] = t
                return

    # --- solver
    def check(self, constraints, timeout=None):
        """returns (verdict, model)"""
        self.queries += 1
        t0 = time.time()
        timeout = timeout or self.timeout_ms
        res, model = 'unknown', None
        try:
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(constraints)
            r = s.check()
            if r == z3.unknown:
                s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'simplify',
                            'tseitin-cnf', 'nlsat').solver()
                s.set('timeout', timeout)
                s.add(constraints)
                r = s.check()
            res = str(r)
            if r == z3.sat:
                model = s.model()
        except z3.Z3Exception as e:
            res = 'unknown'
        self.solver_s += time.time() - t0
        return res, model

    def base(self):
        return self.assumptions + self.pc

    def assume(self, cond):
        f = _formula(cond)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.assumptions.append(f)
        self.sign_cache.clear()

    def feasible(self):
        return self.check(self.base())[0] != 'unsat'

    def decide(self, f):
        """python truth value of a z3 formula on the current path"""
        if f is True or f is False:
            return f
        atom = f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        pos = len(self.trace)
        if pos >= self.max_decisions:
            raise PathLimit(f"more than {self.max_decisions} symbolic branches on one path")
        if pos < len(self.prefix):
            val = self.prefix[pos]
        else:
            self.decisions_made += 1
            can_t = self.check(self.base() + [f], self.patience)[0] != 'unsat'
            can_f = self.check(self.base() + [z3.Not(f)], self.patience)[0] != 'unsat'
            if can_t and can_f:
                val = True
                self.alternatives.append((list(self.trace) + [False]))
            elif can_t:
                val = True
            elif can_f:
                val = False
            else:
                raise Infeasible()
        self.trace.append(val)
        self.pc.append(f if val else z3.Not(f))
        self.sign_cache.clear()
        self.learn(atom, val)
        return val

    def implied(self, f):
        """is f implied on this path? (no fork)"""
        if f is True or f is False:
            return f
        return self.check(self.base() + [z3.Not(f)], 5000)[0] == 'unsat'

    def explore(self, fn):
        """runs fn() once per feasible path"""
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if self.paths >= self.max_paths:
                raise PathLimit(f"more than {self.max_paths} paths")
            self._reset_path(prefix)
            try:
                fn()
                self.paths += 1
            except Infeasible:
                self.infeasible_paths += 1
            except StopPath:
                self.paths += 1
            finally:
                stack.extend(self.alternatives)


ENGINE: Engine | None = None


def engine() -> Engine:
    if ENGINE is None:
        raise RuntimeError("no symbolic engine active")
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


def _formula(cond):
    if isinstance(cond, SymBool):
        return cond.f
    if isinstance(cond, (bool,)):
        return cond
    if z3.is_expr(cond):
        return cond
    if cond is None:
        raise EncodingError("None used as a condition")
    return bool(cond)


def f_and(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def f_or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def f_not(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return engine().decide(self.f)

    def __and__(self, o):
        return SymBool(f_and(self.f, _formula(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(f_or(self.f, _formula(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(f_not(self.f))

    def __eq__(self, o):
        g = _formula(o)
        return SymBool(f_or(f_and(self.f, g), f_and(f_not(self.f), f_not(g))))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return 1

    def _num(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._num()

    __index__ = __int__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__


def mkbool(f):
    return f if isinstance(f, bool) else SymBool(f)


# -------------------------------------------------------------------- numbers

def lift(x):
    """Sc of a number; None if x is no number"""
    if isinstance(x, Num):
        return x.sc
    if isinstance(x, SymBool):
        return Sc.const(int(x))
    if isinstance(x, (bool, int, float, Fraction)):
        return Sc.const(x)
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == () and hasattr(x, 'item'):
        y = x.item()
        return lift(y)
    return None


class Num:
    """Symbolic python number."""
    __slots__ = ('sc', 'is_int', 'nan')

    def __init__(self, sc, is_int=False, nan=False):
        self.sc = sc
        self.is_int = is_int
        self.nan = nan

    # arithmetic
    def _bin(self, o, fn, int_ok=True):
        b = lift(o)
        if b is None:
            return NotImplemented
        ii = int_ok and self.is_int and _isint(o)
        nan = self.nan or getattr(o, 'nan', False) if not (self.nan and getattr(o, 'nan', False)) else f_or(self.nan, o.nan)
        if isinstance(o, float) and math.isnan(o):
            return float('nan')
        return Num(fn(self.sc, b), ii, nan)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        _nonzero(b)
        return self._bin(o, lambda a, b: a / b, False)

    def __rtruediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        _nonzero(self.sc)
        return self._bin(o, lambda a, b: b / a, False)

    def __floordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        _nonzero(b)
        q = floor_sc(self.sc / b)
        return Num(q, self.is_int and _isint(o))

    def __rfloordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        _nonzero(self.sc)
        return Num(floor_sc(b / self.sc), self.is_int and _isint(o))

    def __mod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        _nonzero(b)
        return Num(mod_sc(self.sc, b, self.is_int and _isint(o)), self.is_int and _isint(o))

    def __rmod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        _nonzero(self.sc)
        return Num(mod_sc(b, self.sc, self.is_int and _isint(o)), self.is_int and _isint(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(o, self)

    def __neg__(self):
        return Num(-self.sc, self.is_int, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.nan is not False:
            return Num((-self if mkbool(engine().rel('<', self.sc, sym.S0)) else self).sc, self.is_int, self.nan)
        return -self if self < 0 else self

    # comparisons
    def _cmp(self, op, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        f = engine().rel(op, self.sc, b)
        nan = f_or(self.nan, getattr(o, 'nan', False))
        if nan is not False:
            f = f_or(nan, f) if op == '!=' else f_and(f_not(nan), f)
        return mkbool(f)

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __eq__(self, o):
        if lift(o) is None:
            return NotImplemented
        return self._cmp('==', o)

    def __ne__(self, o):
        if lift(o) is None:
            return NotImplemented
        return self._cmp('!=', o)

    def __hash__(self):
        return hash(self.sc)

    def __bool__(self):
        return bool(self != 0)

    # conversions
    def _const(self):
        return self.sc.const_value()

    def __float__(self):
        if self.nan is not False and engine().decide(self.nan):
            return float('nan')
        c = self._const()
        if c is None:
            raise EncodingError("float() of a symbolic value inside a compiled routine")
        return float(c)

    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretise(self)

    def __int__(self):
        return concretise(trunc_num(self))

    def __trunc__(self):
        return trunc_num(self)

    def __floor__(self):
        return Num(floor_sc(self.sc), True)

    def __ceil__(self):
        return Num(-floor_sc(-self.sc), True)

    def __round__(self, n=None):
        return round_num(self, n)

    def is_integer(self):
        return self == self.__floor__()

    def as_integer_ratio(self):
        raise EncodingError("as_integer_ratio of a symbolic value")

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def sqrt(self):
        return Num(sqrt_sc(self.sc))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle_num, (repr(self.sc),))

    # text
    def __repr__(self):
        return num_text(self, '')

    __str__ = __repr__

    def __format__(self, spec):
        return num_text(self, spec)


class TextNum:
    """what a pickled symbolic number turns into"""


def _unpickle_num(s):
    return s


numbers.Number.register(Num)
numbers.Real.register(Num)


def _isint(o):
    if isinstance(o, Num):
        return o.is_int
    return isinstance(o, (int, SymBool))


def _nonzero(b: Sc):
    f = engine().rel('==', b, sym.S0)
    if f is True or (f is not False and engine().decide(f)):
        raise ZeroDivisionError("division by zero")


def concretise(n: Num):
    """finite case split on the value of an integer (each case a path)"""
    c = n._const()
    if c is not None:
        return int(c)
    e = engine()
    for _ in range(200):
        r, m = e.check(e.base())
        if r != 'sat':
            raise EncodingError("cannot enumerate an unbounded integer")
        v = model_value(m, e.poly(n.sc.num)) if not n.sc.den else None
        if v is None:
            raise EncodingError("cannot enumerate a non-polynomial integer")
        v = int(v)
        if e.decide(e.rel('==', n.sc, Sc.const(v))):
            return v
    raise EncodingError("integer has too many values to enumerate")


def model_value(m, expr):
    v = m.eval(expr, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def settled(e, x: Sc):
    """the integer part of x if the path determines it"""
    r, m = e.check(e.base())
    if m is None:
        return None
    a, b = model_value(m, e.poly(x.num)), sym.S1
    if a is None:
        return None
    v = Fraction(a)
    for f, ex in x.den:
        d = model_value(m, e.poly(dict(f)))
        if not d:
            return None
        v /= d ** ex
    n = math.floor(v)
    if e.implied(e.rel('>=', x, Sc.const(n))) and e.implied(e.rel('<', x, Sc.const(n + 1))):
        return n
    return None


def floor_sc(x: Sc) -> Sc:
    c = x.const_value()
    if c is not None:
        return Sc.const(math.floor(c))
    if not x.den and all(sym.VARS.is_int[v] for v in x.vars()) and all(q.denominator == 1 for q in x.num.values()):
        return x
    e = engine()
    key = ('floor', x.key())
    if key not in e.fns:
        n = settled(e, x)
        if n is not None:
            e.fns[key] = Sc.const(n)
            return e.fns[key]
        k = e.fresh('floor', True)
        e.fns[key] = k
        e.assume(e.rel('<=', k, x))
        e.assume(e.rel('<', x, k + sym.S1))
    return e.fns[key]


def trunc_num(n: Num):
    if n.is_int:
        return n
    if n >= 0:
        return Num(floor_sc(n.sc), True)
    return Num(-floor_sc(-n.sc), True)


def mod_sc(a: Sc, b: Sc, is_int) -> Sc:
    ca, cb = a.const_value(), b.const_value()
    if ca is not None and cb is not None:
        return Sc.const(ca - cb * math.floor(ca / cb))
    if ca == 0:
        return sym.S0
    e = engine()
    key = ('mod', a.key(), b.key())
    if key not in e.fns:
        r = e.fresh('rem', bool(is_int))
        e.fns[key] = r
        if ca is not None and ca.denominator == 1 and 0 < ca <= 64 and all(sym.VARS.is_int[v] for v in b.vars()) \
                and e.decide(e.rel('>', b, sym.S0)):
            # few possible quotients: linear cases
            cases = [f_and(e.rel('==', r, a - Sc.const(k) * b), e.rel('<=', Sc.const(k) * b, a), e.rel('<', a, Sc.const(k + 1) * b))
                     for k in range(int(ca) + 1)]
            e.assume(f_or(*cases))
            return r
        q = e.fresh('quot', True)
        e.assume(e.rel('==', a, b * q + r))
        if e.decide(e.rel('>', b, sym.S0)):
            e.assume(e.rel('>=', r, sym.S0))
            e.assume(e.rel('<', r, b))
        else:
            e.assume(e.rel('<=', r, sym.S0))
            e.assume(e.rel('>', r, b))
    return e.fns[key]


def round_num(n: Num, nd=None):
    if nd is None:
        if n.is_int:
            return n
        return Num(round_sc(n.sc), True)
    if isinstance(nd, Num):
        nd = concretise(nd)
    s = Sc.const(Fraction(10) ** nd)
    return Num(round_sc(n.sc * s) / s, n.is_int and nd >= 0)


def round_sc(x: Sc) -> Sc:
    c = x.const_value()
    if c is not None:
        return Sc.const(round(c))
    if not x.den and all(sym.VARS.is_int[v] for v in x.vars()) and all(q.denominator == 1 for q in x.num.values()):
        return x
    e = engine()
    key = ('round', x.key())
    if key not in e.fns:
        if not x.den:
            whole = {m: q for m, q in x.num.items() if q.denominator == 1 and all(sym.VARS.is_int[v] for v, _ in m)}
            rest = Sc({m: q for m, q in x.num.items() if m not in whole})
            h = Sc.const(Fraction(1, 2))
            if e.implied(f_and_z(e.rel('<', rest, h), e.rel('>', rest, -h))):
                e.fns[key] = Sc(whole)
                return e.fns[key]
        k = e.fresh('round', True)
        e.fns[key] = k
        h = Sc.const(Fraction(1, 2))
        e.assume(e.rel('<=', k - h, x))
        e.assume(e.rel('<=', x, k + h))
        # ties go to even: forbid the odd choice
        half = e.fresh('reven', True)
        kz, hz, = e.poly(k.num), e.poly(half.num)
        tie = f_or(e.rel('==', k - h, x), e.rel('==', x, k + h))
        if tie is not False:
            e.assumptions.append(z3.Implies(tie if tie is not True else z3.BoolVal(True), kz == 2 * hz))
    return e.fns[key]


def known_nonneg(x: Sc):
    e = engine()
    return e.implied(e.rel('>=', x, sym.S0))


def sqrt_sc(x: Sc) -> Sc:
    c = x.const_value()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Sc.const(Fraction(n, d))
    e = engine()
    key = ('sqrt', x.key())
    if key in e.fns:
        return e.fns[key]
    # perfect square?
    num, den = x.num, x.den
    q = None
    if all(ex % 2 == 0 for _, ex in den):
        s = sym.p_sqrt(num)
        if s is not None:
            q = sym._mk(s, tuple((f, ex // 2) for f, ex in den))
    else:
        full = sym.p_mul(num, Sc(num, den).sign_poly()) if False else None
    if q is not None:
        if known_nonneg(q):
            e.fns[key] = q
            return q
        if known_nonneg(-q):
            e.fns[key] = -q
            return -q
        out = q if e.decide(e.rel('>=', q, sym.S0)) else -q
        e.fns[key] = out
        return out
    s = e.fresh('sqrt')
    e.fns[key] = s
    e.assume(e.rel('>=', s, sym.S0))
    e.assume(e.rel('==', s * s, x))
    (m, _), = s.num.items()
    vid = m[0][0]
    if not x.den and vid not in x.vars():
        sym.RULES[vid] = (2, x.num)
    return s


FN_AXIOMS = {}


def fn_sc(name, *args: Sc) -> Sc:
    """uninterpreted function symbol (hash-consed on the argument normal form)"""
    e = engine()
    key = (name,) + tuple(a.key() for a in args)
    if key not in e.fns:
        v = e.fresh(name)
        e.fns[key] = v
        ax = FN_AXIOMS.get(name)
        if ax:
            ax(e, v, *args)
    return e.fns[key]


def _pairs(e, name):
    return [(k, v) for k, v in e.fns.items() if k[0] == name]


def _sc_of_key(k):
    return Sc(dict(k[0]), k[1])


def _ax_monotone(e, name, v, x, strict=True):
    for k, w in _pairs(e, name):
        if w is v:
            continue
        y = _sc_of_key(k[1])
        lt, gt = e.rel('<', x, y), e.rel('>', x, y)
        vlt, vgt = e.rel('<', v, w), e.rel('>', v, w)
        for a, b in ((lt, vlt), (gt, vgt)):
            if a is not False:
                e.assumptions.append(z3.Implies(_z(a), _z(b)))
        eq = e.rel('==', x, y)
        if eq is not False:
            e.assumptions.append(z3.Implies(_z(eq), _z(e.rel('==', v, w))))


def _z(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def _ax_exp(e, v, x):
    e.assume(e.rel('>', v, sym.S0))
    # exp(x) >= 1 + x, equality only at 0;  exp(-x) = 1/exp(x)
    e.assume(e.rel('>=', v, x + sym.S1))
    zero = e.rel('==', x, sym.S0)
    e.assumptions.append(_z(zero) == _z(e.rel('==', v, sym.S1)))
    e.assumptions.append(_z(e.rel('>', x, sym.S0)) == _z(e.rel('>', v, sym.S1)))
    _ax_monotone(e, 'exp', v, x)
    for k, w in _pairs(e, 'log'):
        y = _sc_of_key(k[1])           # w = log(y)
        e.assumptions.append(z3.Implies(_z(e.rel('==', x, w)), _z(e.rel('==', v, y))))


def _ax_log(e, v, x):
    zero = e.rel('==', x, sym.S1)
    e.assumptions.append(_z(zero) == _z(e.rel('==', v, sym.S0)))
    e.assumptions.append(_z(e.rel('>', x, sym.S1)) == _z(e.rel('>', v, sym.S0)))
    _ax_monotone(e, 'log', v, x)
    for k, w in _pairs(e, 'exp'):
        y = _sc_of_key(k[1])           # w = exp(y)
        e.assumptions.append(z3.Implies(_z(e.rel('==', w, x)), _z(e.rel('==', v, y))))


def _ax_odd(name):
    def ax(e, v, x):
        e.assumptions.append(_z(e.rel('==', x, sym.S0)) == _z(e.rel('==', v, sym.S0)) if name != 'tan'
                             else z3.Implies(_z(e.rel('==', x, sym.S0)), _z(e.rel('==', v, sym.S0))))
    return ax


def _ax_sincos(name):
    def ax(e, v, x):
        e.assume(e.rel('<=', v, sym.S1))
        e.assume(e.rel('>=', v, -sym.S1))
        other = 'cos' if name == 'sin' else 'sin'
        for k, w in _pairs(e, other):
            if k[1] == x.key():
                e.assume(e.rel('==', v * v + w * w, sym.S1))
    return ax


def _quarter(e):
    """a quarter of the circle: an unknown between two decimals"""
    q = e.fns.get(('quarter',))
    if q is None:
        q = e.fns[('quarter',)] = e.fresh('quarter')
        e.assume(e.rel('>', q, Sc.const(Fraction(15707963267948966, 10**16))))
        e.assume(e.rel('<', q, Sc.const(Fraction(15707963267948967, 10**16))))
    return q


def _within(e, x):
    """inside the branch of the tangent around zero"""
    q = _quarter(e)
    return z3.And(_z(e.rel('<', x, q)), _z(e.rel('>', x, -q)))


def _ax_atan(e, v, x):
    e.assumptions.append(_within(e, v))
    e.assumptions.append(_z(e.rel('==', x, sym.S0)) == _z(e.rel('==', v, sym.S0)))
    e.assumptions.append(_z(e.rel('>', x, sym.S0)) == _z(e.rel('>', v, sym.S0)))
    _ax_monotone(e, 'atan', v, x)
    for k, w in _pairs(e, 'tan'):
        y = _sc_of_key(k[1])
        e.assumptions.append(z3.Implies(_z(e.rel('==', w, x)), _z(e.rel('==', v, y))))


def _ax_tan(e, v, x):
    inside = _within(e, x)
    e.assumptions.append(z3.Implies(z3.And(inside, _z(e.rel('>', x, sym.S0))), _z(e.rel('>', v, sym.S0))))
    e.assumptions.append(z3.Implies(z3.And(inside, _z(e.rel('<', x, sym.S0))), _z(e.rel('<', v, sym.S0))))
    for k, w in _pairs(e, 'tan'):
        if w is not v:
            y = _sc_of_key(k[1])
            both = z3.And(inside, _within(e, y))
            for op in ('<', '>', '=='):
                e.assumptions.append(z3.Implies(z3.And(both, _z(e.rel(op, x, y))), _z(e.rel(op, v, w))))
    e.assumptions.append(z3.Implies(_z(e.rel('==', x, sym.S0)), _z(e.rel('==', v, sym.S0))))
    for k, w in _pairs(e, 'atan'):
        y = _sc_of_key(k[1])
        e.assumptions.append(z3.Implies(_z(e.rel('==', x, w)), _z(e.rel('==', v, y))))


FN_AXIOMS.update(exp=_ax_exp, log=_ax_log, sin=_ax_sincos('sin'), cos=_ax_sincos('cos'), atan=_ax_atan, tan=_ax_tan)


def _pow(a, b):
    sa, sb = lift(a), lift(b)
    if sa is None or sb is None:
        return NotImplemented
    nan = getattr(a, 'nan', False)
    return Num(pow_sc(sa, sb), _isint(a) and _isint(b), f_or(nan, getattr(b, 'nan', False)))


def pow_sc(a: Sc, b: Sc) -> Sc:
    """a ** b.  Non-integer powers: a rational exponent p/q gives the positive
    q-th root r (r^q = a, r >= 0) to the p; a symbolic exponent stays the
    function symbol pow(a, b), positive for positive base."""
    cb = b.const_value()
    ca = a.const_value()
    if cb is not None and cb.denominator == 1:
        n = int(cb)
        if n < 0:
            _nonzero(a)
        return a.pow_int(n)
    if ca is not None and ca == 1:
        return sym.S1
    if cb is not None and cb.denominator == 2:
        if int(cb.numerator) < 0:
            _nonzero(a)
        return sqrt_sc(a).pow_int(int(cb.numerator))
    if cb is not None and cb.denominator <= 6:
        e = engine()
        q = cb.denominator
        key = ('root', q, a.key())
        if key not in e.fns:
            r = e.fresh('root')
            e.fns[key] = r
            e.assume(e.rel('>=', r, sym.S0))
            e.assume(e.rel('==', r.pow_int(q), a))
        return e.fns[key].pow_int(int(cb.numerator))
    e = engine()
    key = ('pow', a.key(), b.key())
    if key not in e.fns:
        # a negative exponent is the inverse of the positive one
        for k, w in list(e.fns.items()):
            if k[0] == 'pow' and k[1] == a.key() and (_sc_of_key(k[2]) + b).is_zero():
                e.fns[key] = w.inv()
                return e.fns[key]
            if k[0] == 'pow' and k[2] == b.key() and (_sc_of_key(k[1]) * a - sym.S1).is_zero():
                e.fns[key] = w.inv()
                return e.fns[key]
        v = e.fresh('pow')
        e.fns[key] = v
        e.assumptions.append(z3.Implies(_z(e.rel('>', a, sym.S0)), _z(e.rel('>', v, sym.S0))))
        e.assumptions.append(z3.Implies(_z(e.rel('==', a, sym.S1)), _z(e.rel('==', v, sym.S1))))
        e.assumptions.append(z3.Implies(_z(e.rel('==', b, sym.S0)), _z(e.rel('==', v, sym.S1))))
        e.assumptions.append(z3.Implies(_z(e.rel('==', b, sym.S1)), _z(e.rel('==', v, a))))
        # strictly increasing in the base for a positive exponent
        for k, w in list(e.fns.items()):
            if k[0] == 'pow' and k[2] == b.key() and w is not v:
                y = _sc_of_key(k[1])
                pos = f_and(e.rel('>', b, sym.S0), e.rel('>', a, sym.S0), e.rel('>', y, sym.S0))
                if pos is not False:
                    e.assumptions.append(z3.Implies(f_and_z(pos, e.rel('<', a, y)), _z(e.rel('<', v, w))))
                    e.assumptions.append(z3.Implies(f_and_z(pos, e.rel('>', a, y)), _z(e.rel('>', v, w))))
    return e.fns[key]


def f_and_z(*cs):
    return _z(f_and(*cs))


# -------------------------------------------------------------- text of numbers

def num_text(n: Num, spec):
    """Text of a symbolic number.  For an input declared as a decimal with d
    fractional digits the text has exactly d of them (the digits themselves are
    abstracted); everything else prints digits that only identify the value."""
    e = engine()
    c = n._const()
    if c is not None and n.nan is False:
        v = int(c) if n.is_int or (c.denominator == 1 and n.is_int) else float(c)
        return format(v, spec)
    d = e.decimals.get(n.sc.key())
    if d is not None:
        import re
        m = re.fullmatch(r"\.?(\d*)([fF]?)", spec)
        if m and (m.group(2) or not spec):
            prec = int(m.group(1)) if m.group(1) else (6 if m.group(2) else None)
            if prec is None:
                return "5." + ("7" * d if d else "0")
            if prec == 0:
                return "5"
            if prec >= 16 and d and n >= 1:
                return "5." + ("7" * d).ljust(prec - 1, "0") + "4"      # binary round-off becomes visible
            return "5." + ("7" * min(d, prec)).ljust(prec, "0")
    # any other value: sixteen digits that stand for this value only, still parsable as a number
    k = e.number_texts.setdefault((n.sc.key(), spec), len(e.number_texts) + 1)
    return f"7.{k:015d}1"


# ------------------------------------------------- symbolic-aware builtins

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Num) and x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], Num):
            return trunc_num(a[0])
        return int(*a, **k)


class sym_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Num) and not x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], Num):
            return Num(a[0].sc, False, a[0].nan)
        return float(*a, **k)


class sym_float(metaclass=_FloatMeta):
    pass


def inject_builtins(modules):
    """`int` and `float` called by the code under test keep symbolic numbers."""
    for m in modules:
        m.__dict__.setdefault('int', sym_int)
        m.__dict__.setdefault('float', sym_float)


def patch_math():
    import numpy as np
    real = {k: getattr(math, k) for k in ('isnan', 'isinf', 'isfinite', 'sqrt', 'isclose', 'fabs', 'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'pow', 'fmod', 'hypot')}

    def isnan(x):
        if isinstance(x, Num):
            return mkbool(x.nan)
        return real['isnan'](x)

    def isinf(x):
        return False if isinstance(x, Num) else real['isinf'](x)

    def isfinite(x):
        return mkbool(f_not(x.nan)) if isinstance(x, Num) else real['isfinite'](x)

    def sqrt(x):
        return Num(sqrt_sc(x.sc), nan=x.nan) if isinstance(x, Num) else real['sqrt'](x)

    def fabs(x):
        return abs(x) if isinstance(x, Num) else real['fabs'](x)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if isinstance(a, Num) or isinstance(b, Num):
            d = abs(a - b)
            return d <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
        return real['isclose'](a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def lifted(name):
        def f(x):
            return Num(fn_sc(name, x.sc)) if isinstance(x, Num) else real[name](x)
        return f

    def mpow(a, b):
        if isinstance(a, Num) or isinstance(b, Num):
            return _pow(a, b)
        return real['pow'](a, b)

    math.isnan, math.isinf, math.isfinite, math.sqrt, math.fabs, math.isclose = isnan, isinf, isfinite, sqrt, fabs, isclose
    math.pow = mpow
    for nme in ('exp', 'log', 'sin', 'cos', 'tan', 'atan'):
        setattr(math, nme, lifted(nme))
    for nm, fn in (('isnan', isnan), ('isinf', isinf), ('isfinite', isfinite)):
        orig = getattr(np, nm)

        def wrap(x, *a, _o=orig, _f=fn, **k):
            return _f(x) if isinstance(x, Num) else _o(x, *a, **k)
        setattr(np, nm, wrap)
    orig_isclose = np.isclose
    np.isclose = lambda a, b, rtol=1e-05, atol=1e-08, **k: (abs(a - b) <= atol + rtol * abs(b)) if isinstance(a, Num) or isinstance(b, Num) else orig_isclose(a, b, rtol=rtol, atol=atol, **k)
