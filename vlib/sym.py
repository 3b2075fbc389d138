"""Exact symbolic scalars.

A scalar is a rational function  N / (f1^e1 ... fk^ek)  over named real (or
integer) variables, with exact rational coefficients.  Every scalar produced by
the code under test is kept in this normal form, modulo the polynomial rewrite
rules registered in the context (n_y^2 -> 1 - n_x^2 for a unit vector, and the
like).  The normal form is only the *encoding*: every verdict is taken by z3 on
the polynomial that is left (see engine.py).
"""
from __future__ import annotations

from fractions import Fraction
import math

ZERO = Fraction(0)
ONE = Fraction(1)


class EncodingError(Exception):
    """The code left what the encoding supports (never a verdict)."""


def to_fraction(x) -> Fraction:
    """Reads a python number exactly; a float is read as the simplest rational
    within 2^-49 relative of it (1/3 written as a float means one third)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if hasattr(x, 'item') and not isinstance(x, float):
        x = x.item()
        return to_fraction(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise EncodingError(f"non finite literal {x}")
        if x == int(x) and abs(x) < 2**53:
            return Fraction(int(x))
        exact = Fraction(x)
        tol = abs(exact) / 2**49
        for d in (10, 10**2, 10**3, 10**4, 10**6, 10**8, 10**10, 10**12):
            q = exact.limit_denominator(d)
            if abs(q - exact) <= tol:
                return q
        # decimal literal (1.716e-5, 1e-16)
        q = Fraction(repr(x))
        if abs(q - exact) <= tol:
            return q
        return exact
    raise EncodingError(f"not a number: {type(x)}")


# ---------------------------------------------------------------- polynomials

class VarTable:
    def __init__(self):
        self.names = []
        self.index = {}
        self.is_int = []

    def get(self, name, is_int=False):
        if name in self.index:
            return self.index[name]
        i = len(self.names)
        self.names.append(name)
        self.is_int.append(is_int)
        self.index[name] = i
        return i


VARS = VarTable()

# rewrite rules: var id -> (power, replacement poly) meaning  v^power -> repl
RULES: dict = {}


def reset_vars():
    VARS.__init__()
    RULES.clear()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_const(q):
    q = Fraction(q)
    return {(): q} if q else {}


def p_add(a, b, s=ONE):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, ZERO) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def p_scale(a, s):
    if not s:
        return {}
    return {m: c * s for m, c in a.items()}


def p_mul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    out = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mono_mul(ma, mb)
            v = out.get(m, ZERO) + ca * cb
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def p_reduce(a):
    """Applies the rewrite rules until none matches."""
    if not RULES:
        return a
    while True:
        hit = None
        for m in a:
            for v, e in m:
                r = RULES.get(v)
                if r is not None and e >= r[0]:
                    hit = (m, v, e, r)
                    break
            if hit:
                break
        if not hit:
            return a
        out = {}
        for m, c in a.items():
            for v, e in m:
                r = RULES.get(v)
                if r is not None and e >= r[0]:
                    k, rem = divmod(e, r[0])
                    rest = tuple((w, x) for w, x in m if w != v)
                    if rem:
                        rest = mono_mul(rest, ((v, rem),))
                    term = {rest: c}
                    for _ in range(k):
                        term = p_mul_raw(term, r[1])
                    out = p_add(out, term)
                    break
            else:
                out = p_add(out, {m: c})
        a = out


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    return p_reduce(p_mul_raw(a, b))


def p_pow(a, n):
    out = p_const(1)
    base = a
    while n:
        if n & 1:
            out = p_mul(out, base)
        n >>= 1
        if n:
            base = p_mul(base, base)
    return out


def p_content_mono(a):
    """gcd monomial of all terms."""
    it = iter(a)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for v in list(first):
            e = min(first[v], d.get(v, 0))
            if e:
                first[v] = e
            else:
                del first[v]
        if not first:
            break
    return tuple(sorted(first.items()))


def mono_div(m, d):
    dd = dict(m)
    for v, e in d:
        x = dd.get(v, 0) - e
        if x < 0:
            return None
        if x:
            dd[v] = x
        else:
            dd.pop(v, None)
    return tuple(sorted(dd.items()))


def p_div_mono(a, d):
    return {mono_div(m, d): c for m, c in a.items()}


def _lead(a):
    return max(a, key=lambda m: (tuple(-v for v, _ in m)[:0], _key(m)))


def _key(m):
    # lexicographic order on exponent vectors (variable 0 most significant)
    return tuple(x for v, e in m for x in (-v, e)) + (-10**9,)


def lex_lead(a):
    best = None
    for m in a:
        if best is None or lex_cmp(m, best) > 0:
            best = m
    return best


def lex_cmp(a, b):
    i = 0
    while True:
        if i >= len(a) and i >= len(b):
            return 0
        if i >= len(a):
            return -1
        if i >= len(b):
            return 1
        (va, ea), (vb, eb) = a[i], b[i]
        if va != vb:
            return 1 if va < vb else -1
        if ea != eb:
            return 1 if ea > eb else -1
        i += 1


def p_exact_div(a, b, limit=400):
    """a / b if it divides exactly (without rewrite rules), else None."""
    if not a:
        return {}
    lb = lex_lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    n = 0
    while r:
        n += 1
        if n > limit:
            return None
        lr = lex_lead(r)
        m = mono_div(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q = p_add(q, {m: c})
        r = p_add(r, p_mul_raw({m: c}, b), -ONE)
    return q


def p_sqrt(a):
    """polynomial square root or None (exact, up to sign)."""
    if not a:
        return {}
    l = lex_lead(a)
    c = a[l]
    if c < 0 or any(e % 2 for _, e in l):
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    lead = tuple((v, e // 2) for v, e in l)
    q = {lead: Fraction(n, d)}
    r = p_add(a, p_mul_raw(q, q), -ONE)
    steps = 0
    while r:
        steps += 1
        if steps > 50:
            return None
        lr = lex_lead(r)
        m = mono_div(lr, lead)
        if m is None:
            return None
        t = {m: r[lr] / (2 * q[lead])}
        # (q+t)^2 = q^2 + 2qt + t^2
        upd = p_add(p_scale(p_mul_raw(q, t), Fraction(2)), p_mul_raw(t, t))
        q = p_add(q, t)
        r = p_add(r, upd, -ONE)
        if len(r) > 200:
            return None
    return q


def p_vars(a, out=None):
    out = set() if out is None else out
    for m in a:
        for v, _ in m:
            out.add(v)
    return out


def p_diff(a, v):
    out = {}
    for m, c in a.items():
        for w, e in m:
            if w == v:
                d = dict(m)
                if e == 1:
                    del d[w]
                else:
                    d[w] = e - 1
                k = tuple(sorted(d.items()))
                out[k] = out.get(k, ZERO) + c * e
                if not out[k]:
                    del out[k]
    return out


def p_key(a):
    return tuple(sorted(a.items()))


# ------------------------------------------------------------------- scalars

class Sc:
    """Immutable rational function."""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (factor key, exponent), sorted
        self._key = None

    # construction
    @staticmethod
    def const(x):
        return Sc(p_const(to_fraction(x)))

    @staticmethod
    def var(name, is_int=False):
        i = VARS.get(name, is_int)
        return Sc({((i, 1),): ONE})

    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), self.den)
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, other):
        return isinstance(other, Sc) and self.key() == other.key()

    def is_zero(self):
        return not self.num

    def const_value(self):
        if self.den:
            return None
        if not self.num:
            return ZERO
        if len(self.num) == 1 and () in self.num:
            return self.num[()]
        return None

    def vars(self):
        s = p_vars(self.num)
        for f, _ in self.den:
            p_vars(dict(f), s)
        return s

    # arithmetic
    def __add__(self, o):
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            return _mk(p_add(self.num, o.num), self.den)
        da, db = dict(self.den), dict(o.den)
        lcm = dict(da)
        for f, e in db.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        na, nb = self.num, o.num
        for f, e in lcm.items():
            ka, kb = e - da.get(f, 0), e - db.get(f, 0)
            if ka:
                na = p_mul(na, p_pow(dict(f), ka))
            if kb:
                nb = p_mul(nb, p_pow(dict(f), kb))
        return _mk(p_add(na, nb), tuple(sorted(lcm.items())))

    def __neg__(self):
        return Sc(p_scale(self.num, -ONE), self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.num or not o.num:
            return S0
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return _mk(p_mul(self.num, o.num), tuple(sorted(d.items())))

    def inv(self):
        if not self.num:
            raise ZeroDivisionError("division by zero scalar")
        num = p_const(1)
        for f, e in self.den:
            num = p_mul(num, p_pow(dict(f), e))
        # split denominators into variable factors and a rest
        d = {}
        cm = p_content_mono(self.num)
        rest = p_div_mono(self.num, cm) if cm else self.num
        for v, e in cm:
            d[p_key({((v, 1),): ONE})] = e
        if len(rest) == 1 and () in rest:
            num = p_scale(num, 1 / rest[()])
        else:
            c = rest[lex_lead(rest)]
            rest = p_scale(rest, 1 / c)
            num = p_scale(num, 1 / c)
            # known factors (keeps denominators factored)
            for f in list(FACTORS):
                while True:
                    q = p_exact_div(rest, dict(f)) if len(f) <= len(rest) else None
                    if q is None or not q:
                        break
                    d[f] = d.get(f, 0) + 1
                    rest = q
                    if len(rest) == 1:
                        break
            if len(rest) == 1 and () in rest:
                num = p_scale(num, 1 / rest[()])
            elif rest:
                s = p_sqrt(rest)
                k, e = (p_key(s), 2) if s is not None else (p_key(rest), 1)
                if e == 2:
                    c2 = s[lex_lead(s)]
                    s = p_scale(s, 1 / c2)
                    num = p_scale(num, 1 / (c2 * c2))
                    k = p_key(s)
                FACTORS[k] = True
                d[k] = d.get(k, 0) + e
        return _mk(num, tuple(sorted(d.items())))

    def __truediv__(self, o):
        return self * o.inv()

    def pow_int(self, n):
        if n < 0:
            return self.inv().pow_int(-n)
        out = S1
        base = self
        while n:
            if n & 1:
                out = out * base
            n >>= 1
            if n:
                base = base * base
        return out

    def den_poly(self):
        out = p_const(1)
        for f, e in self.den:
            out = p_mul(out, p_pow(dict(f), e))
        return out

    def sign_poly(self):
        """polynomial with the same sign wherever the scalar is defined"""
        out = self.num
        for f, e in self.den:
            if e % 2:
                out = p_mul(out, dict(f))
        return out

    def diff(self, name):
        v = VARS.index.get(name)
        if v is None:
            return S0
        n = Sc(self.num)
        dn = Sc(p_diff(self.num, v))
        out = dn
        for f, e in self.den:
            fd = dict(f)
            df = Sc(p_diff(fd, v))
            if df.num:
                out = out - Sc.const(e) * n * df / Sc(fd)
        return out * Sc(p_const(1), self.den)

    def subs(self, mapping):
        """mapping: var id -> Sc"""
        vs = self.vars()
        if not any(v in mapping for v in vs):
            return self
        num = p_subs(self.num, mapping)
        for f, e in self.den:
            num = num / p_subs(dict(f), mapping).pow_int(e)
        return num

    def coeff(self, vid):
        """coefficient of the variable in a scalar linear in it (den free of it)"""
        out = {}
        for m, c in self.num.items():
            d = dict(m)
            e = d.get(vid, 0)
            if e == 1:
                del d[vid]
                out[tuple(sorted(d.items()))] = c
            elif e:
                raise EncodingError("not linear in test function")
        return Sc(out, self.den)

    def evalf(self, values):
        def pe(p):
            tot = 0.0
            for m, c in p.items():
                t = float(c)
                for v, e in m:
                    t *= values[VARS.names[v]] ** e
                tot += t
            return tot
        x = pe(self.num)
        for f, e in self.den:
            x /= pe(dict(f)) ** e
        return x

    def __repr__(self):
        def ps(p):
            if not p:
                return "0"
            return " + ".join(
                ("" if c == 1 and m else f"{c}") + ("*" if m and c != 1 else "") +
                "*".join(VARS.names[v] + (f"^{e}" if e > 1 else "") for v, e in m) for m, c in list(p.items())[:12])
        s = ps(self.num)
        if self.den:
            s = f"({s})/(" + "*".join(f"({ps(dict(f))})" + (f"^{e}" if e > 1 else "") for f, e in self.den) + ")"
        return s


FACTORS: dict = {}


def p_subs(p, mapping):
    tot = S0
    for m, c in p.items():
        t = Sc.const(c)
        for v, e in m:
            r = mapping.get(v)
            if r is None:
                r = Sc({((v, 1),): ONE})
            t = t * r.pow_int(e)
        tot = tot + t
    return tot


def _mk(num, den):
    if not num:
        return S0
    if den:
        d = None
        for f, e in den:
            if len(f) == 1:
                # variable factor
                (m, _), = f
                (v, _), = m
                k = min((dict(mm).get(v, 0) for mm in num), default=0)
                k = min(k, e)
                if k:
                    num = p_div_mono(num, ((v, k),))
                    d = dict(den) if d is None else d
                    if e == k:
                        del d[f]
                    else:
                        d[f] = e - k
            else:
                left = e
                while left and len(num) >= 2:
                    q = p_exact_div(num, dict(f))
                    if q is None:
                        break
                    num = q
                    left -= 1
                if left != e:
                    d = dict(den) if d is None else d
                    if left:
                        d[f] = left
                    else:
                        del d[f]
        if d is not None:
            den = tuple(sorted(d.items()))
    return Sc(num, den)


S0 = Sc({})
S1 = Sc(p_const(1))
