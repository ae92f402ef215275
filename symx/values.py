"""Symbolic values: proxies over z3 terms.  Truth tests fork; C boundaries either have a
model in models.py, are split exhaustively over a finite domain, or abort the check."""
import enum
import math
import operator
from fractions import Fraction

import z3

from . import core
from . import zfast
from .core import Inconclusive, const_value


class Sym:
    __slots__ = ()


def is_sym(v):
    return isinstance(type(v), type) and issubclass(type(v), Sym)


def has_sym(v, depth=3):
    t = type(v)
    if issubclass(t, Sym):
        return True
    if depth and (t is tuple or t is list or t is frozenset or t is set):
        return any(has_sym(i, depth - 1) for i in v)
    if depth and t is dict:
        return any(has_sym(k, depth - 1) or has_sym(i, depth - 1) for k, i in v.items())
    return False


def leak(what):
    core.cur().abort(Inconclusive("leak: " + what))


def B(e):
    """z3 bool -> python bool if constant, else SymBool"""
    v = zfast._bool_value(zfast._ref, e.ast)
    if v == 1:
        return True
    if v == -1:
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return core.cur().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def _z(self, o):
        if type(o) is SymBool:
            return o.e
        if type(o) is bool:
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        z = self._z(o)
        if z is None:
            return SymInt(self._i()) & o
        return B(z3.And(self.e, z))

    __rand__ = __and__

    def __or__(self, o):
        z = self._z(o)
        return B(z3.Or(self.e, z))

    __ror__ = __or__

    def __xor__(self, o):
        return B(self.e != self._z(o))

    __rxor__ = __xor__

    def __invert__(self):
        leak("~bool")

    def _i(self):
        return z3.If(self.e, z3.IntVal(1), z3.IntVal(0))

    def __eq__(self, o):
        z = self._z(o)
        if z is not None:
            return B(self.e == z)
        return SymInt(self._i()) == o

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(self._i()) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymInt(self._i()) - o

    def __rsub__(self, o):
        return o - SymInt(self._i())

    def __mul__(self, o):
        return SymInt(self._i()) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return SymInt(self._i()) < o

    def __le__(self, o):
        return SymInt(self._i()) <= o

    def __gt__(self, o):
        return SymInt(self._i()) > o

    def __ge__(self, o):
        return SymInt(self._i()) >= o

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __reduce__(self):
        leak("pickle")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


core.SYMBOOL = SymBool


def negate(v):
    if v is NotImplemented:
        return v
    if type(v) is SymBool:
        return B(z3.Not(v.e))
    return not v


def land(*vs):
    es = []
    for v in vs:
        c = core.to_z3bool(v)
        if c is False:
            return False
        if c is not True:
            es.append(c)
    return True if not es else SymBool(es[0]) if len(es) == 1 else B(zfast.And(*es))


def lor(*vs):
    es = []
    for v in vs:
        c = core.to_z3bool(v)
        if c is True:
            return True
        if c is not False:
            es.append(c)
    return False if not es else SymBool(es[0]) if len(es) == 1 else B(zfast.Or(*es))


def zb(v):
    c = core.to_z3bool(v)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def _num(o):
    """-> (z3 arith expr, is_real) | ('inf', sign) | None"""
    t = type(o)
    if t is SymInt:
        return o.e, False
    if t is SymReal:
        return o.e, True
    if t is bool:
        return z3.IntVal(int(o)), False
    if t is SymBool:
        return o._i(), False
    if t is SymEnum:
        return (o.e, False) if issubclass(o.cls, int) else None
    if isinstance(o, int):
        return z3.IntVal(int(o)), False
    if t is float:
        if math.isinf(o):
            return ("inf", 1 if o > 0 else -1)
        if math.isnan(o):
            return ("nan", 0)
        f = Fraction(o)
        return z3.RealVal(str(f)), True
    if t is Fraction:
        return z3.RealVal(str(o)), True
    if isinstance(o, float):
        return _num(float(o))
    return None


def _mk(e, real):
    if real:
        return SymReal(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymNum(Sym):
    __slots__ = ("e",)
    REAL = False

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, swap=False):
        n = _num(o)
        if n is None:
            if type(o) is SymFP:
                leak("mixing real and fp")
            return NotImplemented
        if isinstance(n[0], str):
            return f(0.0, o) if not swap else f(o, 0.0)
        if self.REAL and type(o) is int and o.bit_length() > 1024:
            raise OverflowError("int too large to convert to float")
        a, b = self.e, n[0]
        real = self.REAL or n[1]
        if real:
            a = z3.ToReal(a) if not self.REAL else a
            b = z3.ToReal(b) if not n[1] else b
        if swap:
            a, b = b, a
        return _mk(z3.simplify(f(a, b)), real)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return _mk(-self.e, self.REAL)

    def __pos__(self):
        return self

    def __abs__(self):
        return _mk(z3.If(self.e >= 0, self.e, -self.e), self.REAL)

    def _div(self, o, swap):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n[0], str):
            return SymReal(z3.RealVal(0)) if not swap else o
        a = self.e if self.REAL else z3.ToReal(self.e)
        b = n[0] if n[1] else z3.ToReal(n[0])
        if swap:
            a, b = b, a
        if core.cur().branch(z3.simplify(b == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(a / b))

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _floordiv(self, o, swap, mod):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n[0], str):
            leak("floordiv by inf")
        real = self.REAL or n[1]
        a, b = (n[0], self.e) if swap else (self.e, n[0])
        eng = core.cur()
        if real:
            if not self.REAL:
                a, b = (a, z3.ToReal(b)) if swap else (z3.ToReal(a), b)
            elif not n[1]:
                a, b = (z3.ToReal(a), b) if swap else (a, z3.ToReal(b))
            if eng.branch(b == 0):
                raise ZeroDivisionError("float floor division by zero")
            b = z3.simplify(b)
            if const_value(b) is None:
                if not eng.branch(z3.simplify(b > 0)):
                    a, b = z3.simplify(-a), z3.simplify(-b)
                    q = z3.ToReal(eng.quotient(a, b))
                    return SymReal(-(a - q * b)) if mod else SymReal(q)
                q = z3.ToReal(eng.quotient(a, b))
            else:
                q = z3.ToReal(z3.ToInt(a / b))
            return SymReal(a - q * b) if mod else SymReal(q)
        if eng.branch(z3.simplify(b == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        b = z3.simplify(b)
        if const_value(b) is None:
            neg = not eng.branch(z3.simplify(b > 0))
            if neg:
                a, b = z3.simplify(-a), z3.simplify(-b)
            q = eng.quotient(a, b)
            r = a - q * b
            return _mk(-r if neg else r, False) if mod else _mk(q, False)
        if not eng.branch(z3.simplify(b > 0)):
            a, b = -a, -b
            q = a / b
            return _mk(z3.simplify(-(a - q * b)), False) if mod else _mk(z3.simplify(q), False)
        q = a / b
        return _mk(z3.simplify(a % b), False) if mod else _mk(z3.simplify(q), False)

    def __floordiv__(self, o):
        return self._floordiv(o, False, False)

    def __rfloordiv__(self, o):
        return self._floordiv(o, True, False)

    def __mod__(self, o):
        return self._floordiv(o, False, True)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return self._floordiv(o, True, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        if isinstance(o, int) and not is_sym(o) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return self.__index__() ** (o.__index__() if is_sym(o) else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def _cmp(self, o, op):
        n = _num(o)
        if n is None:
            return NotImplemented
        if isinstance(n[0], str):
            return getattr(operator, op)(0.0, o)
        a, b = self.e, n[0]
        if self.REAL and not n[1]:
            b = z3.ToReal(b)
        elif n[1] and not self.REAL:
            a = z3.ToReal(a)
        return B(zfast.cmp(op, a, b))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        return core.cur().branch(z3.simplify(self.e != 0))

    def __reduce__(self):
        leak("pickle")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _conc(self, why):
        v = core.cur().concretise(self.e, why=why)
        return v

    def __hash__(self):
        v = self._conc("hash")
        return hash(v)


class SymInt(SymNum):
    __slots__ = ()
    REAL = False
    __class__ = property(lambda self: int)

    def __index__(self):
        return int(self._conc("index"))

    __int__ = __index__

    def __float__(self):
        return float(self._conc("float"))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        if nd is not None and nd < 0:
            return round(self.__index__(), nd)
        return self

    def __and__(self, o):
        return self.__index__() & (o.__index__())

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | (o.__index__())

    __ror__ = __or__

    def __lshift__(self, o):
        return self * (1 << o.__index__())

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << o.__index__())

    def __rrshift__(self, o):
        return o >> self.__index__()

    def bit_length(self):
        m = z3.If(self.e < 0, -self.e, self.e)
        out = z3.IntVal(0)
        if not B(m < 2 ** 128):     # no more than that is known about huge numbers
            eng = core.cur()
            b = z3.Int(eng.fresh("!bits"))
            eng.add(b > 128)
            return SymInt(b)
        for k in range(128):
            out = z3.If(m >= 2 ** k, k + 1, out)
        return _mk(out, False)

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)


class SymReal(SymNum):
    __slots__ = ()
    REAL = True
    __class__ = property(lambda self: float)

    def __float__(self):
        v = const_value(z3.simplify(self.e))
        if v is not None:
            return float(v)
        leak("float() of symbolic real at a C boundary")

    def trunc(self):
        e = z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        return _mk(z3.simplify(e), False)

    __trunc__ = trunc

    def __int__(self):
        return self.trunc().__index__()

    def __floor__(self):
        return _mk(z3.simplify(z3.ToInt(self.e)), False)

    def __ceil__(self):
        return _mk(z3.simplify(-z3.ToInt(-self.e)), False)

    def __round__(self, nd=None):
        if nd is not None:
            if type(nd) is not int or not 0 <= nd <= 12:
                leak("round(x, n)")
            return (self * 10 ** nd).__round__() / 10 ** nd
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return _mk(z3.simplify(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))), False)

    def is_integer(self):
        return B(z3.IsInt(self.e))

    def __hash__(self):
        v = const_value(z3.simplify(self.e))
        if v is not None:
            return hash(v)
        leak("hash of symbolic real")

    def __repr__(self):
        return "SymReal(%s)" % self.e

    def __str__(self):
        return "<real>"

    def __format__(self, spec):
        return "<real>"


class SymFP(Sym):
    """IEEE double."""
    __slots__ = ("e",)
    __class__ = property(lambda self: float)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _z(o):
        t = type(o)
        if t is SymFP:
            return o.e
        if isinstance(o, (int, float)) and not is_sym(o):
            try:
                return z3.FPVal(float(o), z3.Float64())
            except OverflowError:
                leak("huge int against fp")
        if t is SymInt:
            return z3.fpToFP(z3.RNE(), z3.ToReal(o.e), z3.Float64())
        return None

    def _cmp(self, o, f):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return B(z3.simplify(f(self.e, z)))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)))

    def _ar(self, o, f, swap=False):
        z = self._z(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.e) if swap else (self.e, z)
        return SymFP(f(z3.RNE(), a, b))

    def __add__(self, o):
        return self._ar(o, z3.fpAdd)

    def __radd__(self, o):
        return self._ar(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._ar(o, z3.fpSub)

    def __rsub__(self, o):
        return self._ar(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._ar(o, z3.fpMul)

    def __rmul__(self, o):
        return self._ar(o, z3.fpMul, True)

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def __bool__(self):
        return core.cur().branch(z3.Not(z3.fpIsZero(self.e)))

    def isnan(self):
        return B(z3.fpIsNaN(self.e))

    def isinf(self):
        return B(z3.fpIsInf(self.e))

    def is_integer(self):
        r = z3.fpRoundToIntegral(z3.RTZ(), self.e)
        return B(z3.And(z3.Not(z3.fpIsNaN(self.e)), z3.Not(z3.fpIsInf(self.e)), z3.fpEQ(r, self.e)))

    def __hash__(self):
        leak("hash of symbolic float")

    def __float__(self):
        leak("float() of symbolic float at a C boundary")

    def __repr__(self):
        return "SymFP"

    def __str__(self):
        return "<float>"

    def __format__(self, spec):
        return "<float>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymEnum(Sym):
    """Symbolic member of an Enum whose values are ints."""
    __slots__ = ("cls", "e")

    def __init__(self, cls, e):
        self.cls, self.e = cls, e

    __class__ = property(lambda self: self.cls)

    def conc(self):
        v = core.cur().concretise(self.e, why="enum")
        self.e = z3.IntVal(v)
        return self.cls(v)

    def _z(self, o):
        if type(o) is SymEnum:
            return o.e
        if isinstance(o, self.cls) and not is_sym(o):
            return z3.IntVal(o.value)
        if issubclass(self.cls, int):
            n = _num(o)
            if n is not None and not isinstance(n[0], str):
                return n[0]
        return None

    def __eq__(self, o):
        z = self._z(o)
        return B(zfast.cmp("eq", self.e, z)) if z is not None else NotImplemented

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def _cmp(self, o, op):
        z = self._z(o)
        if z is None or not issubclass(self.cls, int):
            return NotImplemented
        return B(zfast.cmp(op, self.e, z))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return bool(self.conc())

    def __int__(self):
        return int(self.conc())

    __index__ = __int__

    @property
    def name(self):
        return self.conc().name

    @property
    def value(self):
        return _mk(self.e, False)

    def __repr__(self):
        return "SymEnum(%s)" % self.e

    def __str__(self):
        return str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------- strings

def ceq(a, b):
    """equality of two codes (int or BV8) as z3 bool or python bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b > 255:
            return False
        return _cb(z3.simplify(a == z3.BitVecVal(b, 8)))
    return _cb(z3.simplify(a == b))


def _cb(e):
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def cin(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.simplify(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)))


def zor(*es):
    return z3.Or(*[z3.BoolVal(e) if isinstance(e, bool) else e for e in es])


def zand(*es):
    return z3.And(*[z3.BoolVal(e) if isinstance(e, bool) else e for e in es])


def cbranch(e):
    if isinstance(e, bool):
        return e
    return core.cur().branch(e)


WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160)


def is_ws(c, b=False):
    ws = WS[:5] + (32,) if b else WS
    if isinstance(c, int):
        return c in ws or (not b and chr(c).isspace())
    return z3.simplify(zor(*[ceq(c, w) for w in ws]))


class SymSeq(Sym):
    __slots__ = ("_c",)
    BYTES = False

    def __init__(self, codes):
        self._c = codes if codes is None else tuple(codes)

    @property
    def c(self):
        return self._c

    # construction
    @classmethod
    def mk(cls, codes):
        codes = tuple(codes)
        codes = tuple(_cc(c) for c in codes)
        if all(isinstance(c, int) for c in codes):
            return bytes(codes) if cls.BYTES else "".join(map(chr, codes))
        return (SymBytes if cls.BYTES else SymStr)(codes)

    @classmethod
    def codes(cls, o):
        """codes of o if it is of this kind, else None"""
        if type(o) in (SymStr, SymBytes, LazyStr):
            return o.c if o.BYTES == cls.BYTES else None
        if cls.BYTES:
            return tuple(o) if isinstance(o, (bytes, bytearray)) else None
        return tuple(map(ord, o)) if isinstance(o, str) else None

    def _o(self, o):
        c = self.codes(o)
        if c is None:
            raise TypeError("must be %s, not %s" % ("bytes" if self.BYTES else "str", type(o).__name__))
        return c

    # comparison
    def eq_expr(self, o):
        oc = self.codes(o)
        if oc is None:
            return None
        if len(oc) != len(self.c):
            return False
        es = []
        for a, b in zip(self.c, oc):
            e = ceq(a, b)
            if not isinstance(e, bool):
                e = False if z3.is_false(e) else True if z3.is_true(e) else e
            if e is False:
                return False
            if e is True:
                continue
            es.append(e)
        if not es:
            return True
        return es[0] if len(es) == 1 else z3.And(*es)

    def __eq__(self, o):
        e = self.eq_expr(o)
        if e is None:
            return NotImplemented
        return e if isinstance(e, bool) else B(e)

    def __ne__(self, o):
        return negate(self.__eq__(o))

    def _lt(self, a, b, strict):
        """a < b lexicographically (a <= b if not strict)"""
        if not a:
            return True if (b or not strict) else False
        if not b:
            return False
        x, y = a[0], b[0]
        xx = z3.BitVecVal(x, 8) if isinstance(x, int) else x
        yy = z3.BitVecVal(y, 8) if isinstance(y, int) else y
        rest = self._lt(a[1:], b[1:], strict)
        rest = z3.BoolVal(rest) if isinstance(rest, bool) else rest
        return z3.simplify(z3.Or(z3.ULT(xx, yy), z3.And(xx == yy, rest)))

    def _cmp(self, o, f):
        oc = self.codes(o)
        if oc is None:
            return NotImplemented
        r = f(self.c, oc)
        return r if isinstance(r, bool) else B(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: self._lt(a, b, True))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: self._lt(a, b, False))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: self._lt(b, a, True))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: self._lt(b, a, False))

    def __hash__(self):
        if HASH_OK[0]:
            return 7919
        leak("hash of symbolic string outside of a modelled container")

    def __bool__(self):
        return len(self.c) > 0

    def __len__(self):
        return len(self.c)

    def __add__(self, o):
        oc = self.codes(o)
        if oc is None:
            return NotImplemented
        return self.mk(self.c + oc)

    def __radd__(self, o):
        oc = self.codes(o)
        if oc is None:
            return NotImplemented
        return self.mk(oc + self.c)

    def __mul__(self, n):
        return self.mk(self.c * n.__index__())

    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return self.mk(self.c[i])
        v = self.c[i.__index__()]
        if self.BYTES:
            return v if isinstance(v, int) else SymInt(z3.BV2Int(v))
        return self.mk((v,))

    def __iter__(self):
        for i in range(len(self.c)):
            yield self[i]

    def _at(self, pat, i):
        """pattern at position i (forks)"""
        if i < 0 or i + len(pat) > len(self.c):
            return False
        es = []
        for a, b in zip(self.c[i:i + len(pat)], pat):
            e = ceq(a, b)
            if e is False:
                return False
            if e is not True:
                es.append(e)
        return cbranch(z3.simplify(z3.And(*es))) if es else True

    def __contains__(self, o):
        if self.BYTES and isinstance(o, int):
            return any(cbranch(ceq(c, int(o))) for c in self.c)
        return self.find(o) >= 0

    def _bounds(self, start, end):
        n = len(self.c)
        start = 0 if start is None else start.__index__()
        end = n if end is None else end.__index__()
        if start < 0:
            start = max(0, n + start)
        if end < 0:
            end = max(0, n + end)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        p = self._o(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(p) + 1):
            if self._at(p, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        p = self._o(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(p), s - 1, -1):
            if self._at(p, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub):
        p = self._o(sub)
        n = i = 0
        while i + len(p) <= len(self.c):
            if self._at(p, i):
                n += 1
                i += max(1, len(p))
            else:
                i += 1
        return n

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        s, e = self._bounds(*(tuple(a) + (None, None))[:2])
        return self._at(self._o(p), s)

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        pc = self._o(p)
        return self._at(pc, len(self.c) - len(pc))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def _ws(self, c):
        return cbranch(is_ws(c, self.BYTES))

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.c)
            while True:
                while i < n and self._ws(self.c[i]):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._ws(self.c[j - 1]):
                        j -= 1
                    out.append(self.mk(self.c[i:j]))
                    return out
                j = i
                while j < n and not self._ws(self.c[j]):
                    j += 1
                out.append(self.mk(self.c[i:j]))
                i = j
        p = self._o(sep)
        if not p:
            raise ValueError("empty separator")
        i = 0
        last = 0
        while i + len(p) <= len(self.c):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(p, i):
                out.append(self.mk(self.c[last:i]))
                i += len(p)
                last = i
            else:
                i += 1
        out.append(self.mk(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep) if maxsplit < 0 else leak("rsplit")
        p = self._o(sep)
        out = []
        i = len(self.c) - len(p)
        last = len(self.c)
        while i >= 0 and len(out) < maxsplit:
            if self._at(p, i):
                out.append(self.mk(self.c[i + len(p):last]))
                last = i
                i -= len(p)
            else:
                i -= 1
        out.append(self.mk(self.c[:last]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self.mk(self.c), self.mk(()), self.mk(())
        return self.mk(self.c[:i]), sep, self.mk(self.c[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.mk(()), self.mk(()), self.mk(self.c)
        return self.mk(self.c[:i]), sep, self.mk(self.c[i + len(sep):])

    def splitlines(self, keepends=False):
        out, last, i, n = [], 0, 0, len(self.c)
        while i < n:
            c = self.c[i]
            if cbranch(ceq(c, 10)) or cbranch(ceq(c, 13)) or (not self.BYTES and cbranch(zor(*[ceq(c, k) for k in (11, 12, 28, 29, 30, 133)]))):
                j = i + 1
                if j < n and cbranch(ceq(c, 13)) and cbranch(ceq(self.c[j], 10)):
                    j += 1
                out.append(self.mk(self.c[last:j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < n:
            out.append(self.mk(self.c[last:]))
        return out

    def replace(self, a, b, cnt=-1):
        p, q = self._o(a), self._o(b)
        out, i, k = [], 0, 0
        if not p:
            leak("replace of empty")
        while i < len(self.c):
            if (cnt < 0 or k < cnt) and self._at(p, i):
                out.extend(q)
                i += len(p)
                k += 1
            else:
                out.append(self.c[i])
                i += 1
        return self.mk(out)

    def _strip(self, chars, l, r):
        i, j = 0, len(self.c)
        cs = None if chars is None else self._o(chars)

        def hit(c):
            if cs is None:
                return self._ws(c)
            return cbranch(z3.simplify(zor(*[ceq(c, k) for k in cs]))) if cs else False
        while l and i < j and hit(self.c[i]):
            i += 1
        while r and j > i and hit(self.c[j - 1]):
            j -= 1
        return self.mk(self.c[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lower(self):
        def f(c):
            if isinstance(c, int):
                return ord(chr(c).lower()) if c < 128 or not self.BYTES else c
            return z3.simplify(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))
        return self.mk(map(f, self.c))

    def upper(self):
        def f(c):
            if isinstance(c, int):
                return ord(chr(c).upper()) if c < 128 else c
            return z3.simplify(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c))
        return self.mk(map(f, self.c))

    casefold = lower

    def title(self):
        leak("title")

    def capitalize(self):
        return self[:1].upper() + self[1:].lower() if len(self.c) else ""

    def _all(self, f):
        if not self.c:
            return False
        return all(cbranch(f(c)) for c in self.c)

    def isdigit(self):
        return self._all(lambda c: cin(c, 48, 57))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: z3.simplify(zor(cin(c, 65, 90), cin(c, 97, 122))))

    def isalnum(self):
        return self._all(lambda c: z3.simplify(zor(cin(c, 65, 90), cin(c, 97, 122), cin(c, 48, 57))))

    def isspace(self):
        return self._all(lambda c: is_ws(c, self.BYTES))

    def isidentifier(self):
        if not self.c:
            return False
        if cbranch(cin(self.c[0], 48, 57)):
            return False
        return self._all(lambda c: z3.simplify(zor(cin(c, 65, 90), cin(c, 97, 122), cin(c, 48, 57), ceq(c, 95))))

    def isascii(self):
        return self.__class__ is not None and all(cbranch(cin(c, 0, 127)) for c in self.c)

    def islower(self):
        leak("islower")

    def ljust(self, n, f=" "):
        return self + f * max(0, n - len(self.c))

    def rjust(self, n, f=" "):
        return self.mk(tuple(map(ord, f * max(0, n - len(self.c)))) + self.c)

    def zfill(self, n):
        return self.rjust(n, "0")

    def translate(self, t):
        leak("translate")

    def join(self, it):
        out = []
        first = True
        for p in it:
            if not first:
                out.extend(self.c)
            first = False
            out.extend(self._o(p))
        return self.mk(out)

    def __reduce__(self):
        leak("pickle")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ",".join(chr(c) if isinstance(c, int) else str(c) for c in self.c))

    def __str__(self):
        leak("str() of symbolic string at a C boundary")

    def __format__(self, spec):
        leak("format() of symbolic string at a C boundary")

    def conc(self):
        """all feasible values, one per path"""
        eng = core.cur()
        return "".join(chr(c if isinstance(c, int) else eng.concretise(c, limit=256, why="str")) for c in self.c)


def _cc(c):
    if isinstance(c, int):
        return c
    if z3.is_bv_value(c):
        return c.as_long()
    return c


class SymStr(SymSeq):
    __slots__ = ()
    BYTES = False
    __class__ = property(lambda self: str)

    def encode(self, encoding="utf-8", errors="strict"):
        # symbolic characters are ASCII by construction (see provider)
        enc = []
        for c in self.c:
            if isinstance(c, int) and c > 127:
                enc.extend(chr(c).encode(encoding, errors))
            else:
                enc.append(c)
        return SymBytes.mk(enc)

    def format(self, *a, **k):
        from . import models
        import string
        t, marks = [], []
        for c in self.c:
            if isinstance(c, int):
                t.append(chr(c))
                continue
            s = SymStr((c,))
            if s == "{":
                t.append("{")
            elif s == "}":
                t.append("}")
            else:
                t.append(chr(0xE000 + len(marks)))
                marks.append(c)
        t = "".join(t)
        for lit, field, spec, conv in string.Formatter().parse(t):
            if any("\ue000" <= q < "\uf000" for q in (field or "") + (spec or "")):
                leak("format with symbolic field")
        r = models._lift(models.str_format(t, a, k))
        return SymStr.mk([marks[c - 0xE000] if isinstance(c, int) and 0xE000 <= c < 0xF000 else c for c in r.c])

    def __mod__(self, o):
        leak("% with symbolic template")


class SymBytes(SymSeq):
    __slots__ = ()
    BYTES = True
    __class__ = property(lambda self: bytes)

    def decode(self, encoding="utf-8", errors="strict"):
        # symbolic bytes are ASCII by construction unless declared otherwise
        for c in self.c:
            if not cbranch(cin(c, 0, 127)):
                if encoding.lower().replace("_", "-") in ("latin-1", "latin1", "iso-8859-1"):
                    continue
                raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic non-ascii byte")
        return SymStr.mk(self.c)

    def hex(self):
        leak("hex")


class LazyStr(SymStr):
    """Formatted text whose symbolic parts are rendered only when looked at."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self._c = None
        self.parts = parts

    @property
    def c(self):
        if self._c is None:
            out = []
            for p in self.parts:
                out.extend(SymStr.codes(render(p)))
            self._c = tuple(out)
        return self._c

    def eq_expr(self, o):
        # the same shape: fixed-length text, then one integer (whose decimal form is unique)
        if type(o) is LazyStr and self._c is None and o._c is None and type(self.parts[-1]) is SymInt and type(o.parts[-1]) in (SymInt, int) \
                and all(type(p) in (str, SymStr) for p in self.parts[:-1] + o.parts[:-1]):
            a = SymStr.mk([c for p in self.parts[:-1] for c in SymStr.codes(p)])
            b = SymStr.mk([c for p in o.parts[:-1] for c in SymStr.codes(p)])
            if len(a) == len(b):
                return z3.And(zb(a == b), zb(self.parts[-1] == o.parts[-1]))
        return SymSeq.eq_expr(self, o)

    def startswith(self, p, *a):
        t = self.parts[0]
        if self._c is None and not a and type(p) is str and type(t) is str and (len(t) >= len(p) or not p.startswith(t)):
            return t.startswith(p)
        return SymSeq.startswith(self, p, *a)

    def endswith(self, p, *a):
        t = self.parts[-1]
        if self._c is None and not a and type(p) is str and type(t) is str and (len(t) >= len(p) or not p.endswith(t)):
            return t.endswith(p)
        return SymSeq.endswith(self, p, *a)

    def removesuffix(self, p):
        t = self.parts[-1]
        if self._c is None and type(p) is str and type(t) is str and len(t) >= len(p):
            if not p or not t.endswith(p):
                return self
            rest = self.parts[:-1] + ([t[:len(t) - len(p)]] if len(t) > len(p) else [])
            return LazyStr(rest) if rest else ""
        return SymSeq.removesuffix(self, p)

    def __bool__(self):
        if any(type(p) is str and p for p in self.parts):
            return True
        return len(self.c) > 0

    def __repr__(self):
        return "LazyStr(%r)" % (self.parts,)

    def __contains__(self, o):
        # header-safety tests in HTTP libraries
        if o in ("\n", "\r", "\r\n", "\0") and all(not (type(p) is str and o in p) for p in self.parts):
            return False
        return SymSeq.__contains__(self, o)


HASH_OK = [0]


def digit_value(ch):
    """value of a character already known to be a decimal digit"""
    if isinstance(ch, int):
        return z3.IntVal(ch - 48)
    e = z3.IntVal(9)
    for k in range(8, -1, -1):
        e = z3.If(ch == 48 + k, z3.IntVal(k), e)
    return e


def render(v):
    """str(v) with symbolic ints in exact decimal notation"""
    t = type(v)
    if t is SymStr or t is LazyStr:
        return v
    if t is str:
        return v
    if t is SymInt:
        return render_int(v)
    if t is SymBool:
        return "True" if v else "False"
    if t is SymEnum:
        return str(v.conc())
    if t is SymReal:
        f = v.trunc()
        if v == f:
            return SymStr.codes(render(f)) and (render(f) + ".0")
        leak("rendering of a symbolic non-integral float")
    if t is SymFP or t is SymBytes:
        leak("rendering of %s" % t.__name__)
    return str(v)


def render_int(v):
    eng = core.cur()
    known = eng.digits.get(v.e.get_id())
    if known is not None:
        # the decimal form of what was read from decimal text
        c = list(known[1])
        while len(c) > 1 and cbranch(ceq(c[0], 48)):
            c = c[1:]
        return SymStr.mk(c)
    neg = bool(v < 0)
    a = -v if neg else v
    if not is_sym(a):
        return str(-a if neg else a)
    n = 1
    while not bool(a < 10 ** n):
        n += 1
        if n > 30:
            leak("unbounded integer rendered")
    out = [45] if neg else []
    for i in range(n - 1, -1, -1):
        d = z3.simplify((a.e / (10 ** i)) % 10)
        out.append(z3.simplify(z3.Int2BV(d, 8) + 48))
    return SymStr.mk(out)


# ---------------------------------------------------------------- evaluation

def eval_sym(m, v, depth=8):
    t = type(v)
    if t in (SymInt, SymReal):
        return canon(const_value(m.eval(v.e, model_completion=True)) if t is SymInt else _frac(m.eval(v.e, model_completion=True)))
    if t is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t is SymFP:
        return canon(core.fp_to_float(m.eval(v.e, model_completion=True)))
    if t is SymEnum:
        return canon(v.cls(m.eval(v.e, model_completion=True).as_long()))
    if t is LazyStr and v._c is None:
        return "".join(str(eval_text(m, p)) for p in v.parts)
    if t in (SymStr, LazyStr, SymBytes):
        cs = [c if isinstance(c, int) else m.eval(c, model_completion=True).as_long() for c in v.c]
        return canon(bytes(cs) if t is SymBytes else "".join(map(chr, cs)))
    if t is dict or isinstance(v, dict) and not is_sym(v):
        return {"__d": sorted(([eval_sym(m, k), eval_sym(m, i)] for k, i in v.items()), key=repr)}
    if t in (list, tuple):
        return [eval_sym(m, i) for i in v]
    if t in (set, frozenset):
        return {"__s": sorted((eval_sym(m, i) for i in v), key=repr)}
    return canon(v)


def eval_text(m, p):
    r = eval_sym(m, p)
    if isinstance(r, (str, int, bool)) or r is None:
        return r
    return "<?>"


def _frac(e):
    if z3.is_algebraic_value(e):
        e = e.approx(20)
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


from .values_lite import canon, same_obs  # noqa: E402
