"""Path-forking symbolic executor for real Python code.

Inputs are z3 bit-vector terms wrapped in proxies (SymInt, SymRat, SymStr).
The code under test runs unmodified in CPython; every operator it applies to a
proxy builds a term, and every truth decision on a term asks the solver which
outcomes are feasible under the current path condition.  When both are, the
process forks and each copy carries on with one outcome.  A `check()` asks the
solver for inputs on this path that falsify the assertion.

Integers are exact: every SymInt carries an interval [lo, hi] that contains all
its values, and its bit-vector is always wide enough for that interval, so
nothing ever wraps (Python int semantics, two's complement for bit operators).
"""
import fractions
import json
import math
import os
import random
import sys
import time
import traceback

import z3

MAXW = 6000          # widest bit-vector the engine builds
CONC_LIMIT = 300     # most values one concretisation may fork over
RLIMIT = 400_000_000  # z3 resource limit per query (deterministic; no timer threads)

CTX = None           # the active context of this process


# --------------------------------------------------------------------------
# terms
# --------------------------------------------------------------------------

def _need(lo, hi):
    a = hi.bit_length() if hi >= 0 else (~hi).bit_length()
    b = lo.bit_length() if lo >= 0 else (~lo).bit_length()
    return max(a, b) + 1


def _ext(e, w):
    cw = e.size()
    if cw == w:
        return e
    if cw < w:
        return z3.SignExt(w - cw, e)
    return z3.Extract(w - 1, 0, e)


class EngineLimit(BaseException):
    pass


def mk(e, lo, hi):
    """A SymInt for term e (signed) known to lie in [lo, hi]."""
    if lo == hi:
        return lo
    w = _need(lo, hi)
    if w > MAXW:
        raise EngineLimit("bit-vector of %d bits" % w)
    if e.size() != w:
        e = _ext(e, w)
    return SymInt(e, lo, hi)


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymRat or t is SymStr or t is SymTime


def _co(x):
    """(term maker, lo, hi) for an int-like operand, else None"""
    t = type(x)
    if t is SymInt:
        return x
    if t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymTime:
        return None
    if isinstance(x, int):
        return int(x)
    return None


def _bounds(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    return x, x


def _term(x, w):
    if type(x) is SymInt:
        return _ext(x.e, w)
    return z3.BitVecVal(x, w)


def _allones(n):
    """smallest 2^k-1 >= n (n >= 0)"""
    return (1 << n.bit_length()) - 1


class SymInt:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    __class__ = property(lambda self: int)

    # ---- arithmetic
    def __add__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        a, b = self.lo, self.hi
        c, d = _bounds(o)
        lo, hi = a + c, b + d
        w = _need(lo, hi)
        w = max(w, self.e.size())
        return mk(_term(self, w) + _term(o, w), lo, hi)

    __radd__ = __add__

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w = max(_need(lo, hi), self.e.size())
        return mk(-_term(self, w), lo, hi)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        c, d = _bounds(o)
        lo, hi = self.lo - d, self.hi - c
        w = max(_need(lo, hi), self.e.size(), _need(c, d))
        return mk(_term(self, w) - _term(o, w), lo, hi)

    def __rsub__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        if type(o) is float and not o.is_integer():
            return SymRat(self, 1) * o
        if type(o) is float:
            return SymRat(self * int(o), 1)
        if isinstance(o, (str, list, tuple, bytes)) and not is_sym(o):
            return o * self.__index__()
        o = _co(o)
        if o is None:
            return NotImplemented
        c, d = _bounds(o)
        ps = [self.lo * c, self.lo * d, self.hi * c, self.hi * d]
        lo, hi = min(ps), max(ps)
        w = max(_need(lo, hi), self.e.size(), _need(c, d))
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            return mk(_term(self, w) << (o.bit_length() - 1), lo, hi)
        return mk(_term(self, w) * _term(o, w), lo, hi)

    __rmul__ = __mul__

    def _divmod(self, o):
        """floor division and modulo by a nonzero int-like"""
        c, d = _bounds(o)
        if c <= 0 <= d and CTX.branch(z3.simplify(_term(o, _need(c, d)) == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if type(o) is int and o > 0 and o & (o - 1) == 0:
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        a, b = self.lo, self.hi
        cs = [x for x in {c, d, 1 if c <= 1 <= d else c, -1 if c <= -1 <= d else d} if x != 0]
        qs = [x // y for x in (a, b) for y in cs]
        qlo, qhi = min(qs), max(qs)
        rlo, rhi = min(0, c + 1), max(0, d - 1)
        w = max(_need(a, b), _need(c, d)) + 1
        x, y = _term(self, w), _term(o, w)
        if a >= 0 and c >= 0:
            q, r = z3.UDiv(x, y), z3.URem(x, y)
            rhi = min(rhi, b)
        else:
            q0, r0 = x / y, z3.SRem(x, y)
            adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
            q = z3.If(adj, q0 - 1, q0)
            r = z3.If(adj, r0 + y, r0)
        return mk(q, qlo, qhi), mk(r, rlo, rhi)

    def __floordiv__(self, o):
        if isinstance(o, float):
            return NotImplemented
        o = _co(o)
        if o is None:
            return NotImplemented
        return self._divmod(o)[0]

    def __rfloordiv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return lift(o)._divmod(self)[0]

    def __mod__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return self._divmod(o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        o = _co(o)
        if o is None:
            return NotImplemented
        return lift(o)._divmod(self)[1]

    def __divmod__(self, o):
        o = _co(o)
        return self._divmod(o)

    def __rdivmod__(self, o):
        return lift(_co(o))._divmod(self)

    def __truediv__(self, o):
        return SymRat(self, 1) / o

    def __rtruediv__(self, o):
        return SymRat(lift(_co(o)) if not isinstance(o, float) else o, 1) / self

    def __pow__(self, o, m=None):
        o = _co(o)
        if type(o) is SymInt:
            o = o.__index__()
        if o < 0:
            return float(self.__index__()) ** o
        r = 1
        for _ in range(o):
            r = r * self
        return r if m is None else r % m

    def __rpow__(self, o):
        if o == 2 and self.lo >= 0:
            return lift(1) << self
        return o ** self.__index__()

    # ---- shifts
    def __lshift__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        c, d = _bounds(o)
        if c < 0:
            if CTX.branch(_term(o, _need(c, d)) < 0):
                raise ValueError("negative shift count")
            c = max(c, 0)
        if d > 4200:
            o = o.__index__()
            c = d = o
        vs = [self.lo << c, self.lo << d, self.hi << c, self.hi << d]
        lo, hi = min(vs), max(vs)
        w = max(_need(lo, hi), self.e.size(), _need(0, d) + 1)
        return mk(_term(self, w) << _term(o, w), lo, hi)

    def __rlshift__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return lift(o).__lshift__(self)

    def __rshift__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        c, d = _bounds(o)
        if c < 0:
            if CTX.branch(_term(o, _need(c, d)) < 0):
                raise ValueError("negative shift count")
            c = max(c, 0)
        vs = [self.lo >> c, self.lo >> d, self.hi >> c, self.hi >> d]
        lo, hi = min(vs), max(vs)
        w = max(self.e.size(), _need(0, d))
        return mk(_term(self, w) >> _term(o, w), lo, hi)

    def __rrshift__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return lift(o).__rshift__(self)

    # ---- bit operators
    def __invert__(self):
        return mk(~self.e, ~self.hi, ~self.lo)

    def __and__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        a, b = self.lo, self.hi
        c, d = _bounds(o)
        if a >= 0 and c >= 0:
            lo, hi = 0, min(b, d)
        elif a >= 0:
            lo, hi = 0, b
        elif c >= 0:
            lo, hi = 0, d
        else:
            lo, hi = -_allones(max(~a, ~c, 0)) - 1, max(b, d, -1)
        w = max(_need(a, b), _need(c, d))
        return mk(_term(self, w) & _term(o, w), lo, hi)

    __rand__ = __and__

    def __or__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        a, b = self.lo, self.hi
        c, d = _bounds(o)
        w = max(_need(a, b), _need(c, d))
        if a >= 0 and c >= 0:
            lo, hi = max(a, c), _allones(max(b, d))
        else:
            lo = min(a, c)
            hi = -1 if (b < 0 or d < 0) else _allones(max(b, d, 0))
        return mk(_term(self, w) | _term(o, w), lo, hi)

    __ror__ = __or__

    def __xor__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        a, b = self.lo, self.hi
        c, d = _bounds(o)
        w = max(_need(a, b), _need(c, d))
        if a >= 0 and c >= 0:
            lo, hi = 0, _allones(max(b, d))
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mk(_term(self, w) ^ _term(o, w), lo, hi)

    __rxor__ = __xor__

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = -self
        if self.hi <= 0:
            return n
        w = max(n.e.size(), self.e.size())
        return mk(z3.If(self.e < 0, _term(n, w), _term(self, w)), 0, max(self.hi, -self.lo))

    # ---- comparisons: decided here, so that `is True` works on the result
    def _cmp(self, o, f, dflt):
        if type(o) is SymRat or isinstance(o, float):
            return SymRat(self, 1)._cmp(o, f, dflt)
        o = _co(o)
        if o is None:
            return dflt
        return CTX.branch(cmp_term(self, o, f))

    def __eq__(self, o):
        r = self._cmp(o, "eq", False)
        return r

    def __ne__(self, o):
        r = self._cmp(o, "ne", True)
        return r

    def __lt__(self, o):
        return self._cmp(o, "lt", NotImplemented)

    def __le__(self, o):
        return self._cmp(o, "le", NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, "gt", NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, "ge", NotImplemented)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return CTX.branch(self.e != 0)

    # ---- concretisation points
    def __index__(self):
        return CTX.concretise(self)

    __int__ = __index__

    def __hash__(self):
        if CTX.hash_mode == "const":
            # every symbolic key lands in one bucket; equality then decides (the harness
            # guarantees that such dicts hold symbolic keys only)
            return 0x5EED
        return hash(CTX.concretise(self))

    def __float__(self):
        return float(CTX.concretise(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def bit_length(self):
        n = abs(self)
        if type(n) is int:
            return n.bit_length()
        k = n.hi.bit_length()
        w = max(_need(0, k), 2)
        r = z3.BitVecVal(0, w)
        for i in range(n.hi.bit_length()):
            r = z3.If(z3.Extract(i, i, n.e) == 1, z3.BitVecVal(i + 1, w), r)
        return mk(r, 0, k)

    def bit_count(self):
        return sum((abs(self) >> i) & 1 for i in range(max(self.hi, -self.lo).bit_length()))

    def to_bytes(self, *a, **k):
        return CTX.concretise(self).to_bytes(*a, **k)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    denominator = 1
    imag = 0

    def conjugate(self):
        return self

    def __str__(self):
        return CTX.strval(self)

    __repr__ = __str__

    def __format__(self, spec):
        return CTX.strval(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (int, (CTX.concretise(self),))


def lift(x):
    """int -> a SymInt-like object (constant term)"""
    if type(x) is SymInt:
        return x
    x = int(x)
    s = SymInt.__new__(SymInt)
    s.e = z3.BitVecVal(x, _need(x, x))
    s.lo = s.hi = x
    return s


_T, _F = z3.BoolVal(True), z3.BoolVal(False)


def cmp_term(a, b, f):
    """python bool or z3 Bool for a comparison of int-likes"""
    a0, a1 = _bounds(a)
    b0, b1 = _bounds(b)
    if f == "eq" or f == "ne":
        if a1 < b0 or b1 < a0:
            return f == "ne"
        if a0 == a1 == b0 == b1:
            return f == "eq"
    elif f == "lt":
        if a1 < b0:
            return True
        if a0 >= b1:
            return False
    elif f == "le":
        if a1 <= b0:
            return True
        if a0 > b1:
            return False
    elif f == "gt":
        return cmp_term(b, a, "lt")
    elif f == "ge":
        return cmp_term(b, a, "le")
    w = max(_need(a0, a1), _need(b0, b1))
    x, y = _term(a, w), _term(b, w)
    if f == "eq":
        return x == y
    if f == "ne":
        return x != y
    if f == "lt":
        return x < y
    return x <= y


# --------------------------------------------------------------------------
# rationals: results of `/` on symbolic ints (exact; see DESIGN for the bound
# under which they agree with IEEE doubles)
# --------------------------------------------------------------------------

class SymRat:
    """n/d with n int-like and d a positive int-like"""
    __slots__ = ("n", "d")

    __class__ = property(lambda self: float)

    def __init__(self, n, d):
        if isinstance(n, float) and not is_sym(n):
            fr = fractions.Fraction(n)
            n, d = fr.numerator, fr.denominator * d
        for v in (n, d):
            lo, hi = _bounds(v)
            if max(abs(lo), abs(hi)) >= 1 << 50:
                raise EngineLimit("true division outside the exact-double range")
        self.n, self.d = n, d

    @staticmethod
    def of(x):
        if type(x) is SymRat:
            return x
        if type(x) is SymInt:
            return SymRat(x, 1)
        if isinstance(x, float):
            fr = fractions.Fraction(x)
            return SymRat(fr.numerator, fr.denominator)
        c = _co(x)
        return None if c is None else SymRat(c, 1)

    def __add__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        return SymRat(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __neg__(self):
        return SymRat(-self.n, self.d)

    def __sub__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        return SymRat(self.n * o.d - o.n * self.d, self.d * o.d)

    def __rsub__(self, o):
        return SymRat.of(o) - self

    def __mul__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        return SymRat(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymRat.of(o)
        if o is None:
            return NotImplemented
        if o.n == 0:
            raise ZeroDivisionError("division by zero")
        n, d = self.n * o.d, self.d * o.n
        if d < 0:
            n, d = -n, -d
        if type(d) is int and type(n) is int:
            return n / d
        return SymRat(n, d)

    def __rtruediv__(self, o):
        return SymRat.of(o) / self

    def __floordiv__(self, o):
        q = self / o
        if not type(q) is SymRat:
            return q // 1
        return q.__floor__()

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        if self.n >= 0:
            return self.n // self.d
        return -((-self.n) // self.d)

    def __round__(self, nd=None):
        q, r = divmod(self.n, self.d)
        t = 2 * r - self.d
        if t < 0:
            return q
        if t > 0:
            return q + 1
        return q if q % 2 == 0 else q + 1

    def is_integer(self):
        return self.n % self.d == 0

    def __int__(self):
        return CTX.concretise(self.__trunc__())

    def __float__(self):
        return CTX.concretise(self.n) / CTX.concretise(self.d)

    def __hash__(self):
        return hash(self.__float__())

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __abs__(self):
        return self if self.n >= 0 else -self

    def __bool__(self):
        return bool(self.n != 0)

    def _cmp(self, o, f, dflt):
        o = SymRat.of(o)
        if o is None:
            return dflt
        l, r = self.n * o.d, o.n * self.d
        return CTX.branch(cmp_term(l, r, f))

    def __eq__(self, o):
        return self._cmp(o, "eq", False)

    def __ne__(self, o):
        return self._cmp(o, "ne", True)

    def __lt__(self, o):
        return self._cmp(o, "lt", NotImplemented)

    def __le__(self, o):
        return self._cmp(o, "le", NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, "gt", NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, "ge", NotImplemented)

    def __str__(self):
        return CTX.strval(self)
    __repr__ = __str__

    def __format__(self, spec):
        return CTX.strval(self, spec)


# --------------------------------------------------------------------------
# simulation times: sums of inputs, in linear integer arithmetic (far cheaper
# for the solver than bit-vectors when many events are ordered)
# --------------------------------------------------------------------------

class SymTime:
    """c + sum of k * input, exact"""
    __slots__ = ("c", "m")

    __class__ = property(lambda self: int)

    def __init__(self, c, m):
        self.c, self.m = c, m          # m: {name: (coefficient, term, lo, hi)}

    @staticmethod
    def of(x):
        t = type(x)
        if t is SymTime:
            return x
        if t is SymInt or t is int or t is bool:
            return SymTime(int(x), {})
        if t is float and x.is_integer():
            return SymTime(int(x), {})
        return None

    def _norm(self):
        return self if self.m else self.c

    def __add__(self, o):
        o = SymTime.of(o)
        if o is None:
            return NotImplemented
        m = dict(self.m)
        for n, (k, t, lo, hi) in o.m.items():
            k += m[n][0] if n in m else 0
            if k:
                m[n] = (k, t, lo, hi)
            else:
                del m[n]
        return SymTime(self.c + o.c, m)._norm()
    __radd__ = __add__

    def __mul__(self, o):
        if type(o) is float and o.is_integer():
            o = int(o)
        if type(o) is not int:
            return NotImplemented
        return SymTime(self.c * o, {n: (k * o, t, lo, hi) for n, (k, t, lo, hi) in self.m.items()} if o else {})._norm()
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymTime.of(o)
        return NotImplemented if o is None else self + -o

    def __rsub__(self, o):
        return -self + o

    def __truediv__(self, o):
        return self if o == 1 else self._conc() / o

    def __rtruediv__(self, o):
        return o / self._conc()

    def __floordiv__(self, o):
        return self if o == 1 else self._conc() // o

    def __mod__(self, o):
        return 0 if o == 1 else self._conc() % o

    def __or__(self, o):
        return self if type(o) is int and o == 0 else self._conc() | o
    __ror__ = __or__

    def __lshift__(self, o):
        return self * (1 << o)

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def is_integer(self):
        return True

    def bounds(self):
        lo = hi = self.c
        for k, t, a, b in self.m.values():
            lo += k * a if k > 0 else k * b
            hi += k * b if k > 0 else k * a
        return lo, hi

    def term(self):
        xs = [t if k == 1 else k * t for k, t, lo, hi in self.m.values()]
        if self.c or not xs:
            xs.append(z3.IntVal(self.c))
        return xs[0] if len(xs) == 1 else z3.Sum(xs)

    def _conc(self):
        return CTX.concretise(self)

    def __int__(self):
        return self._conc()
    __index__ = __int__

    def __float__(self):
        return float(self._conc())

    def __hash__(self):
        return hash(self._conc())

    def __abs__(self):
        return self if self >= 0 else -self

    def __bool__(self):
        return self != 0

    def cmp(self, o, f):
        """python bool or z3 Bool; o a SymTime"""
        d = self - o
        if type(d) is int:
            return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[f]
        lo, hi = d.bounds()
        if f in ("gt", "ge"):
            f, lo, hi, d = {"gt": "lt", "ge": "le"}[f], -hi, -lo, -d
        if f in ("eq", "ne"):
            if lo > 0 or hi < 0:
                return f == "ne"
        elif f == "lt":
            if hi < 0 or lo >= 0:
                return hi < 0
        elif hi <= 0 or lo > 0:
            return hi <= 0
        t = d.term()
        return {"eq": t == 0, "ne": t != 0, "lt": t < 0, "le": t <= 0}[f] if f != "ne" else z3.Not(t == 0)

    def _cmp(self, o, f, dflt):
        o = SymTime.of(o)
        if o is None:
            return dflt
        return CTX.branch(self.cmp(o, f))

    def __eq__(self, o):
        return self._cmp(o, "eq", False)

    def __ne__(self, o):
        return self._cmp(o, "ne", True)

    def __lt__(self, o):
        return self._cmp(o, "lt", NotImplemented)

    def __le__(self, o):
        return self._cmp(o, "le", NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, "gt", NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, "ge", NotImplemented)

    def __str__(self):
        return CTX.strval(self)
    __repr__ = __str__

    def __format__(self, spec):
        return CTX.strval(self, spec)


# --------------------------------------------------------------------------
# strings: concrete length, symbolic characters
# --------------------------------------------------------------------------

class SymStr:
    __slots__ = ("cs",)
    __class__ = property(lambda self: str)

    def __init__(self, cs):
        self.cs = list(cs)       # ints or SymInts (code points)

    @staticmethod
    def of(x):
        if type(x) is SymStr:
            return x
        if isinstance(x, str):
            return SymStr([ord(c) for c in x])
        return None

    def _norm(self):
        if all(type(c) is int for c in self.cs):
            return "".join(map(chr, self.cs))
        return self

    def conc(self):
        self.cs = [c if type(c) is int else c.__index__() for c in self.cs]
        return "".join(map(chr, self.cs))

    def __len__(self):
        return len(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.cs[i])._norm()
        return SymStr([self.cs[i]])._norm()

    def __iter__(self):
        for c in self.cs:
            yield SymStr([c])._norm()

    def __add__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return SymStr(self.cs + o.cs)

    def __radd__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return SymStr(o.cs + self.cs)

    def __mul__(self, n):
        return SymStr(self.cs * int(n))

    def eq_term(self, o):
        o = SymStr.of(o)
        if o is None or len(o.cs) != len(self.cs):
            return False
        return and_(*[cmp_term(a, b, "eq") for a, b in zip(self.cs, o.cs)])

    def __eq__(self, o):
        return CTX.branch(self.eq_term(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        for a, b in zip(self.cs, o.cs):
            if a != b:
                return a < b
        return len(self.cs) < len(o.cs)

    def __gt__(self, o):
        return SymStr.of(o) < self

    def __le__(self, o):
        return not (self > o)

    def __ge__(self, o):
        return not (self < o)

    def __hash__(self):
        return hash(self.conc())

    def __contains__(self, o):
        o = SymStr.of(o)
        n = len(o)
        return any(CTX.branch(SymStr(self.cs[i:i + n]).eq_term(o))
                   for i in range(len(self.cs) - n + 1))

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            return self.conc().startswith(p, *a)
        p = SymStr.of(p)
        if len(p) > len(self):
            return False
        return CTX.branch(SymStr(self.cs[:len(p)]).eq_term(p))

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            return self.conc().endswith(p, *a)
        p = SymStr.of(p)
        if len(p) > len(self):
            return False
        return CTX.branch(SymStr(self.cs[len(self.cs) - len(p):]).eq_term(p))

    def __str__(self):
        return self.conc()

    def __repr__(self):
        return repr(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.conc(), name)


# --------------------------------------------------------------------------
# non-forking helpers for harnesses and oracles
# --------------------------------------------------------------------------

def shows(ctx, text, x, spec=""):
    """condition: `text` is the integer x formatted with spec (str_mode "token")"""
    toks = getattr(ctx, "tokens", {})
    if text in toks:
        t, s = toks[text]
        return eq(t, x) if (s or "d") == (spec or "d") else False
    try:
        v = int(text, {"b": 2, "o": 8, "x": 16, "X": 16}.get(spec, 10))
    except ValueError:
        return False
    return eq(x, v) if format(v, spec) == text else False


def _b(x):
    """python bool / z3 Bool -> same; SymInt -> nonzero term"""
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymInt:
        return x.e != 0
    if type(x) is SymTime:
        return x.cmp(SymTime(0, {}), "ne")
    return bool(x)


def and_(*xs):
    ys = []
    for x in xs:
        x = _b(x)
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def or_(*xs):
    ys = []
    for x in xs:
        x = _b(x)
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def not_(x):
    x = _b(x)
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = _b(a), _b(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else z3.Not(b)
    if isinstance(b, bool):
        return a if b else z3.Not(a)
    return a == b


def _c2(a, b, f):
    if type(a) is SymTime or type(b) is SymTime:
        x, y = SymTime.of(a), SymTime.of(b)
        if x is not None and y is not None:
            return x.cmp(y, f)
        if f in ("eq", "ne"):
            return f == "ne"
    if type(a) is SymRat or type(b) is SymRat:
        a, b = SymRat.of(a), SymRat.of(b)
        return cmp_term(a.n * b.d, b.n * a.d, f)
    if type(a) is SymStr or type(b) is SymStr:
        t = SymStr.of(a)
        if t is None:
            t, b = SymStr.of(b), a
        t = t.eq_term(b)
        return t if f == "eq" else not_(t)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f == "ne"
        t = and_(*[eq(x, y) for x, y in zip(a, b)])
        return t if f == "eq" else not_(t)
    x, y = _co(a) if not isinstance(a, str) else None, _co(b) if not isinstance(b, str) else None
    if x is None or y is None:
        if f == "eq":
            return a == b
        if f == "ne":
            return a != b
        return {"lt": lambda: a < b, "le": lambda: a <= b,
                "gt": lambda: a > b, "ge": lambda: a >= b}[f]()
    return cmp_term(x, y, f)


def eq(a, b):
    return _c2(a, b, "eq")


def ne(a, b):
    return _c2(a, b, "ne")


def lt(a, b):
    return _c2(a, b, "lt")


def le(a, b):
    return _c2(a, b, "le")


def gt(a, b):
    return _c2(a, b, "gt")


def ge(a, b):
    return _c2(a, b, "ge")


def ite(c, a, b):
    """int-valued if-then-else without forking"""
    c = _b(c)
    if isinstance(c, bool):
        return a if c else b
    a0, a1 = _bounds(_co(a))
    b0, b1 = _bounds(_co(b))
    lo, hi = min(a0, b0), max(a1, b1)
    if lo == hi:
        return lo
    w = _need(lo, hi)
    return mk(z3.If(c, _term(_co(a), w), _term(_co(b), w)), lo, hi)


def bit(x, i):
    """bit i of a non-negative int-like, as 0/1"""
    return (x >> i) & 1


# --------------------------------------------------------------------------
# shims for builtins that insist on real ints (placed in the globals of the
# modules under test; they fall through to the builtin on ordinary values)
# --------------------------------------------------------------------------

_int, _float, _bin, _hex, _round = int, float, bin, hex, round


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __call__(cls, *a, **k):
        if a and not k and len(a) == 1:
            x = a[0]
            t = type(x)
            if t is SymInt or t is SymTime:
                return x
            if t is SymRat:
                return x.__trunc__()
            if hasattr(t, "_symint"):
                return x._symint()
        return _int(*a, **k)

    def __eq__(cls, o):
        return o is _int or o is cls

    def __hash__(cls):
        return hash(_int)

    def __getattr__(cls, n):
        return getattr(_int, n)

    def __or__(cls, o):
        return _int | o


class IntShim(metaclass=_IntMeta):
    __name__ = "int"


def float_shim_call(x=0.0):
    if type(x) is SymInt:
        return SymRat(x, 1)
    if type(x) is SymRat or type(x) is SymTime:
        return x
    return _float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _float)

    def __subclasscheck__(cls, c):
        return issubclass(c, _float)

    def __call__(cls, *a):
        return float_shim_call(*a)

    def __eq__(cls, o):
        return o is _float or o is cls

    def __hash__(cls):
        return hash(_float)

    def __getattr__(cls, n):
        return getattr(_float, n)


class FloatShim(metaclass=_FloatMeta):
    pass


def bin_shim(x):
    if type(x) is SymInt:
        neg = bool(x < 0)
        n = -x if neg else x
        ln = n.bit_length() if is_sym(n) else _int(n).bit_length()
        k = max(ln.__index__() if is_sym(ln) else ln, 1)
        digits = [48 + ((n >> i) & 1) for i in range(k - 1, -1, -1)]
        pre = [ord(c) for c in ("-0b" if neg else "0b")]
        return SymStr(pre + digits)._norm()
    return _bin(x)


class MathShim:
    """math with floor/ceil/trunc on symbolic values (the rest is math)"""

    def __getattr__(self, n):
        return getattr(math, n)


def range_shim(*a):
    """range() whose bounds may be symbolic: each step asks whether the end is reached"""
    if not any(isinstance(x, SymInt) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(st, SymInt):
        st = st.__index__()

    def gen(i):
        while (i < hi if st > 0 else i > hi):
            yield i
            i = i + st
    return gen(lo)


def install_shims(prefixes):
    for name, mod in list(sys.modules.items()):
        if mod is None or not any(name == p or name.startswith(p + ".") for p in prefixes):
            continue
        d = mod.__dict__
        for k, v in (("int", IntShim), ("float", FloatShim), ("bin", bin_shim), ("range", range_shim)):
            if k not in d:
                d[k] = v


# --------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------

class BaseCtx:
    symbolic = False
    hash_mode = "conc"

    def note(self, **kw):
        pass


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, harness, rec_path, tokens, deadline, known=()):
        self.h = harness
        self.rec = os.open(rec_path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        self.tok_r, self.tok_w = tokens
        self.deadline = deadline
        self.known = list(known)
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("rlimit", RLIMIT)
        self.model = None
        self.times = False          # integer arithmetic in use
        self.inputs = []            # (name, value proxy or concrete, kind)
        self.names = set()
        self.async_child = False    # owns a token
        self.str_mode = "opaque"
        self.tokens = {}        # str_mode "token": character -> (value, format spec)
        self.reset_stats()
        self.depth = 0
        self.incomplete = None
        self.trace = []

    def reset_stats(self):
        self.nq = 0
        self.qt = 0.0
        self.asserts = {}
        self.trivial = 0
        self.covers = set()
        self.kf = []
        self.forks = 0
        self.children = []

    # ---- solver
    def _check(self, *assum):
        self.nq += 1
        t = time.monotonic()
        r = self.solver.check(*assum)
        self.qt += time.monotonic() - t
        if r == z3.unknown:
            s = z3.Solver()
            s.set("rlimit", RLIMIT)
            s.add(self.solver.assertions())
            s.add(*assum)
            t = time.monotonic()
            r = s.check()
            self.qt += time.monotonic() - t
            if r == z3.unknown:
                self.limit("solver unknown")
            return r, (s.model() if r == z3.sat else None)
        return r, (self.solver.model() if r == z3.sat else None)

    def _ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                self.finish("infeasible")
            self.model = m

    def assume(self, cond):
        cond = _b(cond)
        if cond is True:
            return
        if cond is False:
            self.finish("infeasible")
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, True)):
            self.model = None
            self._ensure_model()

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if time.monotonic() > self.deadline:
            self.finish("deadline")
        self._ensure_model()
        side = z3.is_true(self.model.eval(cond, True))
        other = z3.Not(cond) if side else cond
        r, m = self._check(other)
        if r == z3.unsat:
            return side
        if self._fork():
            self.solver.add(other)
            self.model = m
            return not side
        self.solver.add(cond if side else z3.Not(cond))
        return side

    def _fork(self):
        """True in the child"""
        try:
            tok = os.read(self.tok_r, 1)
        except BlockingIOError:
            tok = b""
        self.forks += 1
        rnd = random.getstate()
        pid = os.fork()
        if pid == 0:
            random.setstate(rnd)     # Python reseeds it in the child
            self.reset_stats()
            self.async_child = bool(tok)
            self.depth += 1
            return True
        if not tok:
            self._wait(pid)
        else:
            self.children.append(pid)
        # reap finished async children
        for c in list(self.children):
            try:
                p, st = os.waitpid(c, os.WNOHANG)
            except ChildProcessError:
                p, st = c, 0
            if p:
                self.children.remove(c)
        return False

    def _wait(self, pid):
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass

    def concretise(self, x):
        if type(x) is int or type(x) is bool:
            return int(x)
        if type(x) is SymTime:
            while True:
                self._ensure_model()
                v = self.model.eval(x.term(), True).as_long()
                if self.branch(x.term() == v):
                    x.c, x.m = v, {}
                    return v
        if x.lo == x.hi:
            return x.lo
        n = 0
        while True:
            self._ensure_model()
            v = self.model.eval(x.e, True).as_signed_long()
            n += 1
            if n > CONC_LIMIT:
                self.incomplete = "concretisation of a value with over %d values" % CONC_LIMIT
                self.solver.add(x.e == v)
                break
            if self.branch(x.e == z3.BitVecVal(v, x.e.size())):
                break
        x.lo = x.hi = v
        x.e = z3.BitVecVal(v, _need(v, v))
        return v

    def strval(self, x, spec=""):
        if self.str_mode == "opaque":
            return "<sym>"
        if self.str_mode == "token" and type(x) is SymInt and x.lo != x.hi:
            k = chr(0xE100 + len(self.tokens))
            self.tokens[k] = (x, spec)
            return k
        if type(x) is SymRat:
            return format(x.__float__(), spec)
        return format(self.concretise(x), spec)

    # ---- inputs
    def _nm(self, name):
        base, k = name, 1
        while name in self.names:
            k += 1
            name = "%s#%d" % (base, k)
        self.names.add(name)
        return name

    def int(self, name, lo, hi):
        name = self._nm(name)
        if lo == hi:
            self.inputs.append((name, lo))
            return lo
        w = _need(lo, hi)
        v = z3.BitVec(name, w)
        x = SymInt(v, lo, hi)
        if lo >= 0:
            # non-negative: top bit is 0
            if hi == (1 << (w - 1)) - 1 and lo == 0:
                u = z3.BitVec(name, w - 1)
                x = SymInt(z3.ZeroExt(1, u), lo, hi)
            else:
                self.assume(z3.And(v >= lo, v <= hi))
        elif not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
            self.assume(z3.And(v >= lo, v <= hi))
        self.inputs.append((name, SymInt(x.e, lo, hi)))
        return x

    def time(self, name, lo, hi):
        """a simulation time or delay: only added, subtracted and compared"""
        if lo == hi:
            return self.int(name, lo, hi)
        name = self._nm(name)
        if not self.times:
            self.times = True
            old = self.solver.assertions()
            self.solver = z3.SimpleSolver()
            self.solver.set("rlimit", RLIMIT)
            self.solver.add(*old)
        v = z3.Int(name)
        self.assume(z3.And(v >= lo, v <= hi))
        x = SymTime(0, {name: (1, v, lo, hi)})
        self.inputs.append((name, SymTime(0, dict(x.m))))
        return x

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        """a forked boolean"""
        return self.choice(name, 2) == 1

    def choice(self, name, n):
        """solver-chosen value in range(n), concrete on this path"""
        if not isinstance(n, int):
            seq = list(n)
            return seq[self.choice(name, len(seq))]
        x = self.int(name, 0, n - 1)
        return self.concretise(x) if is_sym(x) else x

    def string(self, name, length, alphabet):
        cs = []
        al = sorted(set(ord(c) for c in alphabet))
        for i in range(length):
            c = self.int("%s[%d]" % (name, i), al[0], al[-1])
            if is_sym(c):
                self.assume(or_(*[eq(c, a) for a in al]))
            cs.append(c)
        return SymStr(cs)._norm() if length else ""

    # ---- assertions
    def _values(self, model):
        out = {}
        for name, v in self.inputs:
            if type(v) is SymInt:
                out[name] = model.eval(v.e, True).as_signed_long()
            elif type(v) is SymTime:
                out[name] = model.eval(v.term(), True).as_long()
            else:
                out[name] = v
        return out

    def _kf(self, label):
        return [k for k in self.known if k.get("harness") == self.h.name and k.get("label") == label]

    def _kf_cond(self, k):
        env = {n.replace("#", "__"): v for n, v in self.inputs}
        try:
            return _b(eval(k.get("when", "True"), dict(
                and_=and_, or_=or_, not_=not_, eq=eq, ne=ne, lt=lt, le=le, gt=gt, ge=ge,
                inp=lambda n: dict(self.inputs)[n])))
        except KeyError:
            return False

    def check(self, cond, label, **info):
        cond = _b(cond)
        d = self.asserts.setdefault(label, 0)
        self.asserts[label] = d + 1
        if cond is True:
            self.trivial += 1
            return
        kfs = self._kf(label)
        neg = _b(not_(cond))
        outside = and_(neg, *[not_(self._kf_cond(k)) for k in kfs])
        if outside is not False:
            if outside is True:
                self._ensure_model()
                r, m = z3.sat, self.model
            else:
                r, m = self._check(outside)
            if r == z3.sat:
                self.finish("violation", label=label, values=self._values(m),
                            info={k: self._show(v, m) for k, v in info.items()})
        for k in kfs:
            c = and_(neg, self._kf_cond(k))
            if c is False:
                continue
            if c is True:
                r = z3.sat
            else:
                r, _ = self._check(c)
            if r == z3.sat:
                self.kf.append(k["id"])
                # carry on only where the assertion holds
                if cond is False:
                    self.finish("known")
                self.assume(cond)
                break

    def _show(self, v, m):
        try:
            if type(v) is SymInt:
                return m.eval(v.e, True).as_signed_long()
            if type(v) is SymTime:
                return m.eval(v.term(), True).as_long()
            if type(v) is SymStr:
                return "".join(chr(c if type(c) is int else m.eval(c.e, True).as_signed_long())
                               for c in v.cs)
            if isinstance(v, (list, tuple)):
                return [self._show(x, m) for x in v]
            return v if isinstance(v, (int, str, float, bool, type(None))) else repr(v)
        except Exception:
            return "?"

    def cover(self, label):
        self.covers.add(label)

    # ---- end of a path
    def limit(self, why):
        self.finish("limit", why=why)

    def finish(self, kind, **kw):
        r = dict(kind=kind, h=self.h.name, nq=self.nq, qt=round(self.qt, 6),
                 asserts=self.asserts, trivial=self.trivial, covers=sorted(self.covers),
                 forks=self.forks, depth=self.depth)
        if self.kf:
            r["kf"] = self.kf
        if self.incomplete:
            r["incomplete"] = self.incomplete
        if kind == "ok" and self.model is not None and (self.depth < 2 or os.getpid() % 101 == 0):
            r["sample"] = self._values(self.model)
        from . import runner
        r["funcs"] = runner.take_funcs()
        r.update(kw)
        os.write(self.rec, (json.dumps(r, default=str) + "\n").encode())
        if self.async_child:
            os.write(self.tok_w, b"x")
        sys.stdout.flush()
        os._exit(0)


class ConcCtx(BaseCtx):
    """replays one assignment on the real code with plain Python values"""

    def __init__(self, values):
        self.values = dict(values)
        self.names = set()
        self.failed = []
        self.covers = set()
        self.missing = []
        self.inputs = []

    _nm = SymCtx._nm

    def int(self, name, lo, hi):
        name = self._nm(name)
        if name not in self.values:
            self.missing.append(name)
            return lo
        return int(self.values[name])

    time = int

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        return self.choice(name, 2) == 1

    def choice(self, name, n):
        if not isinstance(n, int):
            seq = list(n)
            return seq[self.choice(name, len(seq))]
        return self.int(name, 0, n - 1)

    def string(self, name, length, alphabet):
        return "".join(chr(self.int("%s[%d]" % (name, i), ord(min(alphabet)), 0x10ffff))
                       for i in range(length))

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, label, **info):
        if not cond:
            self.failed.append((label, info))
            raise CheckFailed(label, info)

    def cover(self, label):
        self.covers.add(label)

    def finish(self, *a, **k):
        raise Infeasible()


class Infeasible(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label, info):
        super().__init__(label)
        self.label, self.info = label, info
