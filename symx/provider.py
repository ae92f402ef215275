"""The two input providers a harness can run on: symbolic values or a model's values."""
from fractions import Fraction

try:
    import z3
    from . import core
    from . import values as V
except ImportError:          # replay process: no solver there
    z3 = None


class Base:
    def bytes_of(self, s):
        return s


class SymProvider(Base):
    symbolic = True

    def __init__(self, eng, tier):
        self.eng, self.tier = eng, tier

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        n = self.eng.fresh(name)
        e = z3.Int(n)
        self.eng.inputs[n] = ("int", e, 0)
        if lo is not None:
            self.eng.add(e >= lo)
        if hi is not None:
            self.eng.add(e <= hi)
        if lo is not None and lo == hi:
            return lo
        return V.SymInt(e)

    def bool(self, name):
        n = self.eng.fresh(name)
        e = z3.Bool(n)
        self.eng.inputs[n] = ("bool", e, False)
        return V.SymBool(e)

    def flip(self, name):
        """a boolean decided at once"""
        return self.choice(name, [False, True])

    def real(self, name, lo=None, hi=None, strict_lo=None):
        n = self.eng.fresh(name)
        e = z3.Real(n)
        self.eng.inputs[n] = ("real", e, 0)
        for c, f in ((lo, lambda v: e >= v), (hi, lambda v: e <= v), (strict_lo, lambda v: e > v)):
            if c is not None:
                self.eng.add(f(z3.RealVal(str(Fraction(c)))))
        return V.SymReal(e)

    def time(self, name, lo=None, hi=None):
        """a real on a millisecond grid (exact in replay up to float rounding of k/1000... use multiples of 1/8)"""
        n = self.eng.fresh(name)
        e = z3.Int(n)
        self.eng.inputs[n] = ("int", e, 0)
        if lo is not None:
            self.eng.add(e >= int(lo * 8))
        if hi is not None:
            self.eng.add(e <= int(hi * 8))
        return V.SymReal(z3.ToReal(e) / 8)

    def fp(self, name, special=True):
        n = self.eng.fresh(name)
        e = z3.FP(n, z3.Float64())
        self.eng.inputs[n] = ("fp", e, 0)
        if not special:
            self.eng.add(z3.Not(z3.Or(z3.fpIsNaN(e), z3.fpIsInf(e))))
        return V.SymFP(e)

    def choice(self, name, opts):
        opts = list(opts)
        return opts[self.eng.choose(name, len(opts))]

    def enum(self, name, cls, members=None):
        members = list(cls) if members is None else list(members)
        n = self.eng.fresh(name)
        e = z3.Int(n)
        self.eng.inputs[n] = ("int", e, members[0].value)
        if len(members) == 1:
            self.eng.add(e == members[0].value)
            return members[0]
        vals = sorted(m.value for m in members)
        if vals == list(range(vals[0], vals[-1] + 1)):
            self.eng.add(z3.And(e >= vals[0], e <= vals[-1]))
        else:
            self.eng.add(z3.Or(*[e == v for v in vals]))
        self.eng.enums[e.get_id()] = (e, cls)
        return V.SymEnum(cls, e)

    def _codes(self, name, n, alphabet):
        out = []
        for i in range(n):
            nm = self.eng.fresh("%s[%d]" % (name, i))
            e = z3.BitVec(nm, 8)
            self.eng.inputs[nm] = ("bv", e, ord("a"))
            if alphabet is None:
                self.eng.add(z3.And(z3.UGE(e, 32), z3.ULE(e, 126)))
            elif isinstance(alphabet, str):
                self.eng.add(z3.Or(*[e == ord(c) for c in alphabet]))
            out.append(e)
        return out

    def str(self, name, max_len, min_len=0, alphabet=None):
        """string of min..max printable ASCII characters (or of the alphabet); length is split"""
        n = min_len + self.eng.choose(name + ".len", max_len - min_len + 1)
        return V.SymStr.mk(self._codes(name, n, alphabet))

    def bytes(self, name, max_len, min_len=0, alphabet=any):
        n = min_len + self.eng.choose(name + ".len", max_len - min_len + 1)
        return V.SymBytes.mk(self._codes(name, n, alphabet))

    # ---- logic without forking
    def all(self, *cs):
        return V.land(*cs)

    def any(self, *cs):
        return V.lor(*cs)

    def no(self, c):
        return V.negate(c) if not isinstance(c, bool) else not c

    def implies(self, a, b):
        return V.lor(self.no(a), b)

    def iff(self, a, b):
        return V.B(z3.simplify(V.zb(a) == V.zb(b)))

    def eq(self, a, b):
        """structural equality as one condition, without forking"""
        if type(a) is type(b) is dict:
            if len(a) != len(b):
                return False
            from . import models as M
            if not (M.keys_sym(a) or M.keys_sym(b)):
                return V.land(*[k in b and self.eq(a[k], b[k]) for k in a]) if a.keys() == b.keys() else False
            cs = []
            for k in a:
                f = M.find_key(b, k)
                if f is None:
                    if k not in b:
                        return False
                    cs.append(self.eq(M.getitem(a, k), b[k]))
                elif not f[0]:
                    return False
                else:
                    cs.append(self.eq(M.getitem(a, k), M.dget(b, f[1])))
            return V.land(*cs)
        if type(a) in (list, tuple) and type(b) in (list, tuple):
            if len(a) != len(b):
                return False
            return V.land(*[self.eq(i, j) for i, j in zip(a, b)])
        if (a is None) != (b is None):
            return False
        return a == b

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        r = _merge(c, a, b)
        return r if r is not None else (a if c else b)

    def count(self, cs):
        t = 0
        for c in cs:
            t = t + (1 if c is True else 0 if c is False else V.SymInt(z3.If(V.zb(c), z3.IntVal(1), z3.IntVal(0))))
        return t

    def min(self, a, *more):
        for b in more:
            a = self.ite(a <= b, a, b)
        return a

    def max(self, a, *more):
        for b in more:
            a = self.ite(a >= b, a, b)
        return a

    # ---- property interface
    def assume(self, c):
        self.eng.assume(c)

    def check(self, c, label, info=None):
        self.eng.check(c, label, info)

    def reach(self, label):
        self.eng.reach(label)

    def observe(self, label, v):
        self.eng.obs.append((label, v))

    def stop(self):
        self.eng.abort(core.StopPath())

    def missing(self, what):
        self.eng.abort(core.StubMissing(what))

    def unreachable_stub(self, what):
        self.missing(what)

    def jsonable(self, v):
        from . import models as M
        return M.jsonable(v)

    def conc(self, v):
        if type(v) in (V.SymStr, V.LazyStr):
            return v.conc()
        if type(v) is V.SymEnum:
            return v.conc()
        if type(v) is V.SymBool:
            return bool(v)
        if type(v) is V.SymInt:
            return v.__index__()
        return v

    def model(self, f, g):
        """in symbolic mode calls of f from the code under test go to g"""
        from . import models as M
        M.FUNCS[f] = g

    # containers built by the harness
    def dict(self, pairs):
        from . import models as M
        return M.mkdict(pairs)

    def set(self, items):
        from . import models as M
        return M.mkset(items)

    def get(self, d, k, default=None):
        from . import models as M
        return M.getitem(d, k) if M.contains(k, d) else default

    def contains(self, d, k):
        from . import models as M
        return M.contains(k, d)

    def is_str(self, v):
        return isinstance(v, str)

    def ord(self, c):
        from . import models as M
        return M.m_ord(c)

    def digit(self, c):
        """value of a character known to be a decimal digit"""
        return V._mk(z3.simplify(V.digit_value(V.SymStr.codes(c)[0])), False)

    def number(self, s):
        """what Python's float() reads in a text, or None"""
        from . import models as M
        try:
            return M.m_float(s)
        except ValueError:
            return None

    def integer(self, s):
        from . import models as M
        try:
            return M.m_int(s)
        except ValueError:
            return None

    def after(self, s, prefix):
        """s without its literal prefix (checked)"""
        if type(s) is V.LazyStr and s._c is None and type(s.parts[0]) is str and s.parts[0].startswith(prefix):
            rest = s.parts[0][len(prefix):]
            return V.LazyStr(([rest] if rest else []) + s.parts[1:]) if len(s.parts) > 1 else rest
        self.check(s.startswith(prefix), "the text starts with " + prefix)
        return s[len(prefix):]

    def unjson(self, text):
        from . import models as M
        return M.m_loads(text)

    def text(self, *parts):
        """str() of the parts, concatenated"""
        from . import models as M
        return M.mklazy([p if V.is_sym(p) else str(p) for p in parts])


def _merge(c, a, b):
    from . import models as M
    if type(a) is V.SymBool or type(b) is V.SymBool or (isinstance(a, bool) and isinstance(b, bool)):
        return V.B(z3.simplify(z3.If(c.e, V.zb(a), V.zb(b))))
    return M._ite(c, a, b)


class ReplayMismatch(KeyboardInterrupt):
    pass


class ReplayStop(KeyboardInterrupt):
    pass


class ReplayViolation(KeyboardInterrupt):
    pass


class ConcreteProvider(Base):
    symbolic = False

    def __init__(self, model, tier):
        self.m, self.tier = model, tier
        self.counter = {}
        self.obs = []
        self.failed = []
        self.reached = set()

    def _n(self, name):
        i = self.counter.get(name, 0)
        self.counter[name] = i + 1
        return name if i == 0 else "%s#%d" % (name, i)

    def int(self, name, lo=None, hi=None):
        v = self.m.get(self._n(name))
        if lo is not None and lo == hi:
            return lo
        return v if v is not None else (lo if lo is not None else min(0, hi) if hi is not None else 0)

    def bool(self, name):
        return bool(self.m.get(self._n(name), False))

    def flip(self, name):
        return self.choice(name, [False, True])

    def real(self, name, lo=None, hi=None, strict_lo=None):
        v = self.m.get(self._n(name))
        if v is None:
            return float(lo if lo is not None else (strict_lo + 1 if strict_lo is not None else 0))
        return float(Fraction(v))

    def time(self, name, lo=None, hi=None):
        v = self.m.get(self._n(name))
        return (v if v is not None else int((lo or 0) * 8)) / 8

    def fp(self, name, special=True):
        v = self.m.get(self._n(name))
        return 0.0 if v is None else float("nan") if v == "nan" else float.fromhex(v)

    def choice(self, name, opts):
        opts = list(opts)
        i = self.m.get(self._n(name), 0)
        if i >= len(opts):
            raise ReplayMismatch("choice %s: %d of %d" % (name, i, len(opts)))
        return opts[i]

    def enum(self, name, cls, members=None):
        members = list(cls) if members is None else list(members)
        v = self.m.get(self._n(name), members[0].value)
        return cls(v)

    def _codes(self, name, n):
        return [self.m.get(self._n("%s[%d]" % (name, i)), 97) for i in range(n)]

    def str(self, name, max_len, min_len=0, alphabet=None):
        n = min_len + self.m.get(self._n(name + ".len"), 0)
        return "".join(map(chr, self._codes(name, n)))

    def bytes(self, name, max_len, min_len=0, alphabet=any):
        n = min_len + self.m.get(self._n(name + ".len"), 0)
        return bytes(self._codes(name, n))

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        if isinstance(a, tuple):
            a = list(a)
        if isinstance(b, tuple):
            b = list(b)
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def count(self, cs):
        return sum(1 for c in cs if c)

    def min(self, *a):
        return min(a)

    def max(self, *a):
        return max(a)

    def assume(self, c):
        if not c:
            raise ReplayMismatch("assumption false in replay")

    def check(self, c, label, info=None):
        self.reached.add(label)
        if not c:
            self.failed.append(label)
            raise ReplayViolation(label)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, v):
        self.obs.append((label, v))

    def stop(self):
        raise ReplayStop()

    def missing(self, what):
        raise ReplayMismatch("stub: " + what)

    unreachable_stub = missing

    def jsonable(self, v):
        import json
        return json.loads(json.dumps(v))

    def conc(self, v):
        return v

    def model(self, f, g):
        pass

    def dict(self, pairs):
        return dict(pairs)

    def set(self, items):
        return set(items)

    def get(self, d, k, default=None):
        return d.get(k, default)

    def contains(self, d, k):
        return k in d

    def is_str(self, v):
        return isinstance(v, str)

    def ord(self, c):
        return ord(c)

    def digit(self, c):
        return ord(c) - 48

    def number(self, s):
        try:
            return float(s)
        except ValueError:
            return None

    def integer(self, s):
        try:
            return int(s)
        except ValueError:
            return None

    def after(self, s, prefix):
        self.check(s.startswith(prefix), "the text starts with " + prefix)
        return s[len(prefix):]

    def unjson(self, text):
        import json
        return json.loads(text)

    def text(self, *parts):
        return "".join(map(str, parts))
