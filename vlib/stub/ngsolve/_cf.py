"""Coefficient functions of the stub ngsolve: a lazy expression graph with the
dimension rules of the real library, evaluated on exact symbolic scalars."""
from __future__ import annotations

import builtins
import math
import numbers

from vlib import sym
from vlib import engine as _eng
from vlib.sym import Sc, EncodingError
from vlib.engine import Num, engine, lift


class NonFinite(ArithmeticError):
    """The real library yields inf/nan here."""


class NgException(Exception):
    pass


class Ctx:
    """One evaluation: what the leaves mean at the point considered."""

    def __init__(self, bind=None, region=None, facet=None, element=None):
        self.bind = bind or {}
        self.region = region
        self.facet = facet
        self.element = element
        self.memo = {}
        self.keep = []


def _prod(t):
    n = 1
    for i in t:
        n *= i
    return n


def is_number(x):
    return isinstance(x, (numbers.Number, _eng.SymBool)) or (hasattr(x, 'dtype') and getattr(x, 'shape', None) == ())


def divide(a: Sc, b: Sc) -> Sc:
    e = engine()
    f = e.rel('==', b, sym.S0)
    if f is True:
        raise NonFinite("division by zero")
    if f is not False:
        k = ('nz', b.key())
        if k not in e.sign_known:
            if e.decide(f):
                raise NonFinite("division by zero")
            e.sign_known[k] = True
    return a / b


def need(cond_op, x: Sc, what):
    e = engine()
    f = e.rel(cond_op, x, sym.S0)
    if f is True:
        return
    if f is False or not e.decide(f):
        raise NonFinite(what)


def s_sqrt(x: Sc) -> Sc:
    need('>=', x, "sqrt of a negative value")
    return _eng.sqrt_sc(x)


def s_log(x: Sc) -> Sc:
    need('>', x, "log of a non-positive value")
    return s_fn('log', x)


def s_fn(name, x: Sc) -> Sc:
    c = x.const_value()
    if c is not None and c == 0 and name in ('sin', 'tan', 'atan', 'sinh', 'asin'):
        return sym.S0
    if c is not None and c == 0 and name in ('cos', 'exp', 'cosh'):
        return sym.S1
    if c is not None and c == 1 and name == 'log':
        return sym.S0
    return _eng.fn_sc(name, x)


def s_pow(a: Sc, b: Sc) -> Sc:
    cb = b.const_value()
    if cb is not None and cb.denominator == 1:
        n = int(cb)
        if n < 0:
            return divide(sym.S1, a.pow_int(-n))
        return a.pow_int(n)
    need('>=', a, "fractional power of a negative value")
    if cb is not None and cb < 0:
        return divide(sym.S1, _eng.pow_sc(a, -b))
    return _eng.pow_sc(a, b)


class CoefficientFunction:
    __array_ufunc__ = None

    def __init__(self, coef=None, dims=None, **kw):
        if coef is None:
            raise TypeError("CoefficientFunction(None): the real library crashes here")
        if isinstance(coef, dict) or isinstance(coef, builtins.list):
            # domain-wise: value on domain i is entry i
            if isinstance(coef, dict):
                raise TypeError("CoefficientFunction of a dict")
            vals = [as_cf(c) for c in coef]
            if not vals:
                raise NgException("empty list")
            self._init('domainwise', tuple(vals), vals[0]._dims,
                       lambda ctx, *a: _domainwise(ctx, vals))
        elif isinstance(coef, tuple):
            flat = []

            def walk(t):
                for c in t:
                    if isinstance(c, tuple):
                        walk(c)
                    elif isinstance(c, builtins.list):
                        walk(c)
                    else:
                        flat.append(as_cf(c))
            walk(coef)
            if not flat:
                raise NgException("empty tuple")
            n = sum(c.dim for c in flat)
            self._init('tuple', tuple(flat), flat[0]._dims if len(flat) == 1 and len(flat[0]._dims) < 2 else (n,), lambda ctx, *a: [x for v in a for x in v])
            self._zero = all(c._zero is True for c in flat)
        elif isinstance(coef, CoefficientFunction):
            self._init('copy', (coef,), coef._dims, lambda ctx, a: a)
            self._zero = coef._zero
        else:
            sc = lift(coef)
            if sc is None:
                if isinstance(coef, str):
                    raise ValueError(f"could not convert string to float: {coef!r}")
                if hasattr(coef, '__iter__') and not hasattr(coef, 'dtype'):
                    raise TypeError(f"CoefficientFunction of {type(coef)}")
                raise TypeError(f"CoefficientFunction of {type(coef)}")
            self._init('const', (), (), lambda ctx: [sc])
            self._const = coef
            self._zero = True if sc.is_zero() else (False if sc.const_value() is not None else sc)
        if dims is not None:
            dims = tuple(int(d) for d in dims)
            if _prod(dims) != self.dim:
                raise NgException(f"dims {dims} do not match dim {self.dim}")
            self._dims = dims

    def _init(self, op, args, dims, fn):
        self._op = op
        self._args = args
        self._dims = tuple(dims)
        self._fn = fn
        self._zero = False

    # ------------------------------------------------------------ evaluation
    def _eval(self, ctx: Ctx):
        k = id(self)
        b = ctx.bind.get(k)
        if b is not None:
            return b
        m = ctx.memo.get(k)
        if m is None:
            m = self._compute(ctx)
            ctx.memo[k] = m
            ctx.keep.append(self)
        return m

    def _compute(self, ctx):
        if self._op == 'ifpos':
            c, a, b = self._args
            v = c._eval(ctx)[0]
            if engine().decide(engine().rel('>', v, sym.S0)):
                return a._eval(ctx)
            return b._eval(ctx)
        if self._op in ('domainwise', 'leaf'):
            return self._fn(ctx)
        if self._op == 'bndfromvol' and ctx.bind.get('boundary'):
            return self._args[0]._eval(Ctx({k: v for k, v in ctx.bind.items() if k != 'boundary'}, ctx.region, ctx.facet, ctx.element))
        if self._op == 'matvec':
            return _matvec(ctx, self._args[0], self._args[1]._eval(ctx))
        if self._op == 'inner':
            return _inner(ctx, *self._args)
        return self._fn(ctx, *[a._eval(ctx) for a in self._args])

    def __call__(self, *args):
        ctx = _ctx_of(args)
        v = [Num(s) for s in self._eval(ctx)]
        if not self._dims:
            return v[0]
        return tuple(v)

    # ------------------------------------------------------------- structure
    @property
    def dims(self):
        return self._dims

    @dims.setter
    def dims(self, dims):
        self._dims = tuple(dims)

    @property
    def shape(self):
        return self._dims

    @property
    def dim(self):
        return _prod(self._dims)

    @property
    def is_complex(self):
        return False

    @property
    def trans(self):
        if len(self._dims) != 2:
            raise NgException("transpose of non-matrix called")
        r, c = self._dims
        return mk('trans', (self,), (c, r), lambda ctx, a: [a[i * c + j] for j in range(c) for i in range(r)])

    @property
    def data(self):
        return {'dim': self.dim}

    def Reshape(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, builtins.list)):
            dims = tuple(dims[0])
        if _prod(dims) != self.dim:
            raise NgException("Reshape: dims do not match")
        return mk('reshape', (self,), dims, lambda ctx, a: a)

    def Compile(self, *a, **k):
        return self

    def Norm(self):
        return Norm(self)

    def Eig(self):
        raise EncodingError("Eig")

    def Other(self, *a, **k):
        raise EncodingError("Other")

    def Freeze(self):
        return self

    def Replace(self, mapping):
        mp = {id(k): as_cf(v) for k, v in mapping.items()}
        keep = builtins.list(mapping)
        cache = {}

        def rec(n):
            if id(n) in mp:
                return mp[id(n)]
            if id(n) in cache:
                return cache[id(n)]
            if not n._args:
                out = n
            else:
                args = tuple(rec(a) for a in n._args)
                if all(a is b for a, b in zip(args, n._args)):
                    out = n
                else:
                    out = mk(n._op, args, n._dims, n._fn)
                    if n._op == 'domainwise':
                        out._fn = lambda ctx, *a, _v=args: _domainwise(ctx, _v)
            cache[id(n)] = out
            return out
        r = rec(self)
        r._keep = keep
        return r

    def Diff(self, variable, direction=None):
        v = as_cf(variable)
        if v._op != 'coord' and not isinstance(variable, Parameter):
            raise EncodingError("Diff with respect to an expression")
        d = sym.S1 if direction is None else None

        def fn(ctx):
            tmp = Sc.var(f"diff@{id(v)}")
            c2 = Ctx({**ctx.bind, id(v): [tmp]}, ctx.region, ctx.facet, ctx.element)
            out = self._eval(c2)
            val = v._eval(ctx)[0]
            vid = sym.VARS.index[f"diff@{id(v)}"]
            r = [s.diff(f"diff@{id(v)}").subs({vid: val}) for s in out]
            if direction is not None:
                dv = as_cf(direction)._eval(ctx)[0]
                r = [s * dv for s in r]
            return r
        out = mk('leaf', (), self._dims, fn)
        out._keep = (self, v)
        return out

    def __str__(self):
        z = self._zero
        if isinstance(z, Sc):
            z = engine().decide(engine().rel('==', z, sym.S0))
        if z:
            return 'ZeroCoefficientFunction'
        if self._op == 'const':
            return f"coef N5ngfem27ConstantCoefficientFunctionE, real\n val = {self._const}\n"
        return f"coef {self._op}, real" + (f", dims = {' x '.join(map(str, self._dims))}" if self._dims else "") + "\n"

    # --------------------------------------------------------------- indexing
    def __getitem__(self, idx):
        d = self._dims
        if not d:
            if idx == 0:
                return mk('comp', (self,), (), lambda ctx, a: a)
            raise IndexError("index out of range")
        if isinstance(idx, Num):
            idx = idx.__index__()
        if isinstance(idx, int) and not isinstance(idx, bool):
            if idx < 0 or idx >= self.dim:
                raise IndexError("index out of range")
            return mk('comp', (self,), (), lambda ctx, a, i=idx: [a[i]])
        if isinstance(idx, slice):
            if len(d) != 1:
                raise IndexError("slice on a matrix")
            ids = range(d[0])[idx]
            if not len(ids):
                raise NgException("empty slice")
            ids = tuple(ids)
            return mk('comp', (self,), (len(ids),), lambda ctx, a: [a[i] for i in ids])
        if isinstance(idx, tuple):
            if len(idx) != len(d):
                raise NgException("wrong number of indices")
            per, out = [], []
            for i, n in zip(idx, d):
                if isinstance(i, Num):
                    i = i.__index__()
                if isinstance(i, slice):
                    r = tuple(range(n)[i])
                    per.append(r)
                    out.append(len(r))
                else:
                    if i < 0 or i >= n:
                        raise IndexError("index out of range")
                    per.append((i,))
            flat = [()]
            for r in per:
                flat = [f + (i,) for f in flat for i in r]

            def off(t):
                o = 0
                for i, n in zip(t, d):
                    o = o * n + i
                return o
            ids = tuple(off(t) for t in flat)
            return mk('comp', (self,), tuple(out), lambda ctx, a: [a[i] for i in ids])
        raise TypeError(f"bad index {idx!r}")

    # -------------------------------------------------------------- arithmetic
    def __add__(self, o):
        return _addsub(self, o, 1)

    def __radd__(self, o):
        return _addsub(o, self, 1)

    def __sub__(self, o):
        return _addsub(self, o, -1)

    def __rsub__(self, o):
        return _addsub(o, self, -1)

    def __neg__(self):
        r = mk('neg', (self,), self._dims, lambda ctx, a: [-x for x in a])
        r._zero = self._zero
        return r

    def __mul__(self, o):
        from . import _measure
        if isinstance(o, _measure.Symbol):
            return _measure.integral(self, o)
        return _mul(self, o)

    def __rmul__(self, o):
        return _mul(o, self)

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def __pow__(self, o):
        if not _ok(o):
            return NotImplemented
        return _powcf(self, o)

    def __rpow__(self, o):
        if not _ok(o):
            return NotImplemented
        return _powcf(as_cf(o), self)


CF = CoefficientFunction


def mk(op, args, dims, fn):
    c = CoefficientFunction.__new__(CoefficientFunction)
    c._init(op, tuple(args), dims, fn)
    return c


def _ok(o):
    return isinstance(o, CoefficientFunction) or is_number(o)


def as_cf(c):
    if isinstance(c, CoefficientFunction):
        return c
    return CoefficientFunction(c)


def _domainwise(ctx, vals):
    if ctx.region is None or not isinstance(ctx.region, int):
        if len(vals) == 1:
            return vals[0]._eval(ctx)
        i = ctx.region or 0
    else:
        i = ctx.region
    if i < len(vals):
        return vals[i]._eval(ctx)
    return [sym.S0] * vals[0].dim


def _iszero(c):
    return c._zero is True


def _addsub(a, b, s):
    if not _ok(a) or not _ok(b):
        return NotImplemented
    a, b = as_cf(a), as_cf(b)
    if _iszero(a) and not a._dims and False:
        pass
    if a._dims != b._dims:
        raise NgException(f"Dimensions don't match, op = {'+' if s > 0 else '-'} dims1 = {a._dims}, dims2 = {b._dims}")
    if s > 0:
        r = mk('add', (a, b), a._dims, lambda ctx, x, y: [p + q for p, q in zip(x, y)])
        r._zero = _iszero(a) and _iszero(b)
    else:
        r = mk('sub', (a, b), a._dims, lambda ctx, x, y: [p - q for p, q in zip(x, y)])
        r._zero = _iszero(a) and _iszero(b)
    return r


def _mul(a, b):
    if not _ok(a) or not _ok(b):
        return NotImplemented
    a, b = as_cf(a), as_cf(b)
    da, db = a._dims, b._dims
    zero = _iszero(a) or _iszero(b)
    if not da or not db:
        if not da:
            r = mk('scale', (a, b), db, lambda ctx, x, y: [x[0] * q for q in y])
        else:
            r = mk('scale', (a, b), da, lambda ctx, x, y: [q * y[0] for q in x])
        r._zero = zero
        return r
    if len(da) == 1 and len(db) == 1:
        return InnerProduct(a, b)
    if len(da) == 2 and len(db) == 1:
        n, m = da
        if m != db[0]:
            raise NgException(f"Matrix dimensions don't fit: m is {da}, v is {db}")
        r = mk('matvec', (a, b), (n,), lambda ctx, x, y: [_sum(x[i * m + j] * y[j] for j in range(m)) for i in range(n)])
        r._zero = zero
        return r
    if len(da) == 2 and len(db) == 2:
        n, m = da
        m2, k = db
        if m != m2:
            raise NgException(f"Matrix dimensions don't fit: m1 is {da}, m2 is {db}")
        r = mk('matmat', (a, b), (n, k), lambda ctx, x, y: [_sum(x[i * m + l] * y[l * k + j] for l in range(m))
                                                          for i in range(n) for j in range(k)])
        r._zero = zero
        return r
    raise NgException(f"multiplication of dims {da} and {db}")


# Products of matrices with vectors are evaluated in the order that keeps the
# terms small: the value is the same in exact arithmetic.

def _known(ctx, n):
    return id(n) in ctx.bind or id(n) in ctx.memo


def _matvec(ctx, n, y):
    """matrix node times vector of values"""
    if not _known(ctx, n):
        if n._op == 'matmat':
            return _matvec(ctx, n._args[0], _matvec(ctx, n._args[1], y))
        if n._op in ('add', 'sub'):
            a, b = (_matvec(ctx, x, y) for x in n._args)
            return [p + q if n._op == 'add' else p - q for p, q in zip(a, b)]
        if n._op == 'scale':
            a, b = n._args
            a, b = (b, a) if a._dims else (a, b)
            k = a._eval(ctx)[0]
            return [k * x for x in _matvec(ctx, b, y)]
        if n._op == 'copy':
            return _matvec(ctx, n._args[0], y)
    x = n._eval(ctx)
    r, m = n._dims
    return [_sum(x[i * m + j] * y[j] for j in range(m)) for i in range(r)]


def _row(ctx, v, n):
    """vector of values times matrix node"""
    if not _known(ctx, n):
        if n._op == 'matmat':
            return _row(ctx, _row(ctx, v, n._args[0]), n._args[1])
        if n._op in ('add', 'sub'):
            a, b = (_row(ctx, v, x) for x in n._args)
            return [p + q if n._op == 'add' else p - q for p, q in zip(a, b)]
        if n._op == 'scale':
            a, b = n._args
            a, b = (b, a) if a._dims else (a, b)
            k = a._eval(ctx)[0]
            return [k * x for x in _row(ctx, v, b)]
        if n._op == 'copy':
            return _row(ctx, v, n._args[0])
    x = n._eval(ctx)
    r, m = n._dims
    return [_sum(v[i] * x[i * m + j] for i in range(r)) for j in range(m)]


def _inner(ctx, a, b):
    if len(a._dims) == 1:
        if b._op in ('matvec', 'add', 'sub', 'scale') and a._op not in ('matvec', 'add', 'sub', 'scale'):
            a, b = b, a
        if a._op in ('matvec', 'add', 'sub', 'scale') and a is not b:
            v = b._eval(ctx)
            if _mixes(a):
                return [_dotv(ctx, v, a)]
    x, y = a._eval(ctx), b._eval(ctx)
    return [_sum(p * q for p, q in zip(x, y))]


def _mixes(n):
    if n._op == 'matvec':
        return True
    return n._op in ('add', 'sub', 'scale') and any(_mixes(x) for x in n._args)


def _dotv(ctx, v, n):
    if not _known(ctx, n):
        if n._op == 'matvec':
            y = n._args[1]._eval(ctx)
            if all(x.is_zero() for x in y):
                w = _matvec(ctx, n._args[0], y)
                return _sum(p * q for p, q in zip(v, w))
            return _dotv(ctx, _row(ctx, v, n._args[0]), n._args[1])
        if n._op in ('add', 'sub') and _mixes(n):
            a, b = (_dotv(ctx, v, x) for x in n._args)
            return a + b if n._op == 'add' else a - b
        if n._op == 'scale' and _mixes(n):
            a, b = n._args
            a, b = (b, a) if a._dims else (a, b)
            return a._eval(ctx)[0] * _dotv(ctx, v, b)
    return _sum(p * q for p, q in zip(v, n._eval(ctx)))


def _sum(it):
    t = sym.S0
    for x in it:
        t = t + x
    return t


def _div(a, b):
    if not _ok(a) or not _ok(b):
        return NotImplemented
    a, b = as_cf(a), as_cf(b)
    if b._dims:
        raise NgException("division by a non-scalar")
    r = mk('div', (a, b), a._dims, lambda ctx, x, y: [divide(p, y[0]) for p in x])
    return r


def _powcf(a, b):
    b = as_cf(b)
    if b._dims:
        raise NgException("non-scalar exponent")
    if a._dims:
        if len(a._dims) == 1 and b._op == 'const' and b._fn(None)[0].const_value() == 2:
            return InnerProduct(a, a)
        raise NgException("power of a non-scalar")
    return mk('pow', (a, b), (), lambda ctx, x, y: [s_pow(x[0], y[0])])


# -------------------------------------------------------------------- functions

def InnerProduct(a, b):
    if not isinstance(a, CoefficientFunction) and not is_number(a):
        from . import _fe
        return _fe.vector_inner(a, b)
    a, b = as_cf(a), as_cf(b)
    if a.dim != b.dim or (a._dims != b._dims):
        raise NgException(f"InnerProduct: dims don't match {a._dims} {b._dims}")
    return mk('inner', (a, b), (), lambda ctx, x, y: [_sum(p * q for p, q in zip(x, y))])


def OuterProduct(a, b):
    a, b = as_cf(a), as_cf(b)
    if len(a._dims) > 1 or len(b._dims) > 1:
        raise NgException("OuterProduct needs vectors")
    return mk('outer', (a, b), (a.dim, b.dim), lambda ctx, x, y: [p * q for p in x for q in y])


def Id(n):
    if not isinstance(n, int):
        raise TypeError("Id(): incompatible function arguments")
    vals = [sym.S1 if i == j else sym.S0 for i in range(n) for j in range(n)]
    return mk('id', (), (n, n), lambda ctx: vals)


def Zero(dims):
    return CoefficientFunction(tuple(0 for _ in range(_prod(dims))), dims=dims)


def Norm(a):
    if not isinstance(a, CoefficientFunction):
        if is_number(a):
            return abs(a)
        from . import _fe
        return _fe.vector_norm(a)
    return mk('norm', (a,), (), lambda ctx, x: [s_sqrt(_sum(p * p for p in x))])


def Trace(a):
    a = as_cf(a)
    if len(a._dims) != 2 or a._dims[0] != a._dims[1]:
        raise NgException("Trace of non-square matrix called")
    n = a._dims[0]
    return mk('trace', (a,), (), lambda ctx, x: [_sum(x[i * n + i] for i in range(n))])


def _square(a):
    a = as_cf(a)
    if len(a._dims) != 2 or a._dims[0] != a._dims[1]:
        raise NgException("square matrix needed")
    return a, a._dims[0]


def Sym(a):
    a, n = _square(a)
    h = Sc.const(0.5)
    return mk('sym', (a,), (n, n), lambda ctx, x: [h * (x[i * n + j] + x[j * n + i]) for i in range(n) for j in range(n)])


def Skew(a):
    a, n = _square(a)
    h = Sc.const(0.5)
    return mk('skew', (a,), (n, n), lambda ctx, x: [h * (x[i * n + j] - x[j * n + i]) for i in range(n) for j in range(n)])


def _det(x, n):
    if n == 1:
        return x[0]
    if n == 2:
        return x[0] * x[3] - x[1] * x[2]
    t = sym.S0
    for j in range(n):
        minor = [x[i * n + k] for i in range(1, n) for k in range(n) if k != j]
        term = x[j] * _det(minor, n - 1)
        t = t + term if j % 2 == 0 else t - term
    return t


def Det(a):
    a, n = _square(a)
    return mk('det', (a,), (), lambda ctx, x: [_det(x, n)])


def Cof(a):
    a, n = _square(a)

    def fn(ctx, x):
        out = []
        for i in range(n):
            for j in range(n):
                minor = [x[r * n + c] for r in range(n) if r != i for c in range(n) if c != j]
                d = _det(minor, n - 1) if n > 1 else sym.S1
                out.append(d if (i + j) % 2 == 0 else -d)
        return out
    return mk('cof', (a,), (n, n), fn)


def Inv(a):
    if not isinstance(a, CoefficientFunction):
        raise EncodingError("Inv of a matrix object")
    a, n = _square(a)
    c = Cof(a)
    return mk('inv', (a, c), (n, n), lambda ctx, x, y: [divide(y[j * n + i], _det(x, n)) for i in range(n) for j in range(n)])


def Cross(a, b):
    a, b = as_cf(a), as_cf(b)
    return mk('cross', (a, b), (3,), lambda ctx, x, y: [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


def IfPos(c, a, b):
    c, a, b = as_cf(c), as_cf(a), as_cf(b)
    if c._dims:
        raise NgException("IfPos: condition must be scalar")
    if a._dims != b._dims:
        raise NgException("IfPos: dims don't match")
    return mk('ifpos', (c, a, b), a._dims, None)


def _unary(name, sfn, fallback):
    def f(x):
        if isinstance(x, CoefficientFunction):
            return mk(name, (x,), x._dims, lambda ctx, a: [sfn(s) for s in a])
        if isinstance(x, Num):
            try:
                return Num(sfn(x.sc), False, x.nan)
            except NonFinite:
                return float('nan')
        if is_number(x):
            return fallback(x)
        raise TypeError(f"{name}(): incompatible function arguments: {type(x)}")
    f.__name__ = name
    return f


_m = {k: getattr(math, k) for k in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'erf', 'atan2')}
sqrt = _unary('sqrt', s_sqrt, _m['sqrt'])
exp = _unary('exp', lambda s: s_fn('exp', s), _m['exp'])
log = _unary('log', s_log, _m['log'])
sin = _unary('sin', lambda s: s_fn('sin', s), _m['sin'])
cos = _unary('cos', lambda s: s_fn('cos', s), _m['cos'])
tan = _unary('tan', lambda s: s_fn('tan', s), _m['tan'])
atan = _unary('atan', lambda s: s_fn('atan', s), _m['atan'])
asin = _unary('asin', lambda s: s_fn('asin', s), _m['asin'])
acos = _unary('acos', lambda s: s_fn('acos', s), _m['acos'])
sinh = _unary('sinh', lambda s: s_fn('sinh', s), _m['sinh'])
cosh = _unary('cosh', lambda s: s_fn('cosh', s), _m['cosh'])
erf = _unary('erf', lambda s: s_fn('erf', s), _m['erf'])
floor = _unary('floor', _eng.floor_sc, _m['floor'])
ceil = _unary('ceil', lambda s: -_eng.floor_sc(-s), _m['ceil'])


def atan2(y, x):
    if isinstance(y, CoefficientFunction) or isinstance(x, CoefficientFunction):
        y, x = as_cf(y), as_cf(x)
        return mk('atan2', (y, x), (), lambda ctx, a, b: [_eng.fn_sc('atan2', a[0], b[0])])
    return _m['atan2'](y, x)


def pow(a, b):
    return _powcf(as_cf(a), b)


def Conj(a):
    return a


pi = math.pi


# ----------------------------------------------------------------------- leaves

class Parameter(CoefficientFunction):
    def __init__(self, value):
        if isinstance(value, bool):
            value = float(value)
        if lift(value) is None:
            raise TypeError("Parameter(): incompatible constructor arguments")
        self._init('param', (), (), None)
        self._value = value

    def _compute(self, ctx):
        return [lift(self._value)]

    def Get(self):
        v = self._value
        if isinstance(v, Num):
            return Num(v.sc, False, v.nan)
        return float(v)

    def Set(self, value):
        if lift(value) is None:
            raise TypeError("Set(): incompatible function arguments")
        self._value = value

    def __float__(self):
        return float(self.Get())

    def __lt__(self, o):
        return self.Get() < _pv(o)

    def __le__(self, o):
        return self.Get() <= _pv(o)

    def __gt__(self, o):
        return self.Get() > _pv(o)

    def __ge__(self, o):
        return self.Get() >= _pv(o)


def _pv(o):
    return o.Get() if isinstance(o, Parameter) else o


def leaf(name, dims, default):
    """default(ctx) -> list of Sc"""
    return mk('leaf', (), dims, default)


def _coord(i, name):
    def fn(ctx):
        p = ctx.bind.get('point')
        if p is None or p[i] is None:
            raise EncodingError(f"coordinate {name} not bound")
        return [p[i]]
    c = mk('coord', (), (), lambda ctx: fn(ctx))
    c._coord = i
    return c


x, y, z = _coord(0, 'x'), _coord(1, 'y'), _coord(2, 'z')


def _unbound(what):
    def fn(ctx):
        raise EncodingError(f"{what} not bound in this evaluation")
    return fn


class _SpecialCF:
    def __init__(self):
        self._n = {}
        self._t = {}
        self.mesh_size = leaf('mesh_size', (), _unbound('mesh_size'))

    def normal(self, dim):
        if dim not in self._n:
            self._n[dim] = leaf('normal', (dim,), _unbound('normal vector'))
        return self._n[dim]

    def tangential(self, dim, consistent=False):
        if dim not in self._t:
            self._t[dim] = leaf('tangential', (dim,), _unbound('tangential vector'))
        return self._t[dim]


specialcf = _SpecialCF()


class MappedPoint:
    def __init__(self, mesh, pt=(), bind=None, region=None, facet=None, element=None):
        self.mesh = mesh
        self.pnt = tuple(pt)
        self.bind = bind or {}
        self.region = region
        self.facet = facet
        self.element = element


def _ctx_of(args):
    if len(args) == 1 and isinstance(args[0], Ctx):
        return args[0]
    if len(args) == 1 and isinstance(args[0], MappedPoint):
        mp = args[0]
        pt = [lift(c) for c in mp.pnt] + [None, None, None]
        b = dict(mp.bind)
        b['point'] = pt[:3]
        region, element = mp.region, mp.element
        n = (getattr(mp.mesh, 'spec', None) or {}).get('strip')
        if n and region is None and element is None and isinstance(mp.pnt[0], (int, float)):
            element = min(max(int(mp.pnt[0]), 0), n - 1)
            region = mp.mesh.cells[element].index
        return Ctx(b, region, mp.facet, element)
    if all(is_number(a) for a in args):
        pt = [lift(c) for c in args] + [None, None, None]
        return Ctx({'point': pt[:3]})
    raise TypeError("CoefficientFunction call with unsupported arguments")
