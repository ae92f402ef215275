"""Hooks called by instrumented code, and models of builtins and library functions that
would otherwise see symbolic values at a C boundary."""
import base64
import builtins
import enum
import functools
import inspect
import itertools
import json
import math
import operator
import os
import os.path
from fractions import Fraction

import z3

from . import core
from . import values as V
from .values import (LazyStr, Sym, SymBool, SymBytes, SymEnum, SymFP, SymInt, SymReal, SymSeq, SymStr, has_sym, is_sym, leak)

FUNCS = {}      # callable -> model(*args, **kw), used when an argument is symbolic


def model(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


# ------------------------------------------------------------- containers

class _HashOK:
    def __enter__(self):
        V.HASH_OK[0] += 1

    def __exit__(self, *a):
        V.HASH_OK[0] -= 1


hash_ok = _HashOK()


def symkey(k):
    t = type(k)
    if t in (SymStr, SymBytes, LazyStr):
        return True
    if t in (tuple, frozenset):
        return any(symkey(i) for i in k)
    return False


def keys_sym(d):
    for k in d:
        if symkey(k):
            return True
    return False


def find_key(d, k):
    """-> (found, stored key)"""
    if not symkey(k) and not keys_sym(d):
        return None
    for q in list(d):
        if q is k:
            return True, q
        r = q == k
        if r is NotImplemented:
            continue
        if r:
            return True, q
    return False, k


def dget(d, k):
    f = find_key(d, k)
    if f is None:
        return d[k]
    if f[0]:
        with hash_ok:
            return dict.__getitem__(d, f[1])
    if hasattr(type(d), "__missing__"):
        if getattr(d, "default_factory", None) is not None:
            v = d.default_factory()
            dset(d, k, v)
            return v
        return type(d).__missing__(d, k)
    raise KeyError(k)


def dset(d, k, v):
    f = find_key(d, k)
    if f is None:
        d[k] = v
        return
    with hash_ok:
        type(d).__setitem__(d, f[1], v)


def ddel(d, k):
    f = find_key(d, k)
    if f is None:
        del d[k]
        return
    if not f[0]:
        raise KeyError(k)
    with hash_ok:
        type(d).__delitem__(d, f[1])


def din(d, k):
    f = find_key(d, k)
    if f is None:
        if type(k) is SymInt and len(d) <= 16 and all(type(q) is int for q in d):
            return any(bool(q == k) for q in list(d))
        return k in d
    return f[0]


def is_dict(o):
    return isinstance(o, dict) and not is_sym(o)


def is_set(o):
    return isinstance(o, (set, frozenset)) and not is_sym(o)


def mkset(it, cls=set):
    out = set()
    for i in it:
        sadd(out, i)
    if cls is frozenset:
        with hash_ok:
            return frozenset(out)
    return out


def sadd(s, i):
    f = find_key(s, i)
    if f is None:
        set.add(s, i)
    elif not f[0]:
        with hash_ok:
            set.add(s, i)


def sdiscard(s, i):
    f = find_key(s, i)
    if f is None:
        n = len(s)
        set.discard(s, i)
        return len(s) != n
    if f[0]:
        with hash_ok:
            set.discard(s, f[1])
        return True
    return False


def mkdict(pairs):
    out = {}
    for k, v in pairs:
        dset(out, k, v)
    return out


def dupdate(d, *a, **kw):
    for o in a:
        if hasattr(o, "keys"):
            for k in o.keys():
                dset(d, k, getitem(o, k))
        else:
            for k, v in o:
                dset(d, k, v)
    for k, v in kw.items():
        dset(d, k, v)


NO = object()


def dict_method(d, name, a, kw):
    """model of a dict method, or NO when the native one is right"""
    anysym = any(symkey(x) for x in a[:1]) or keys_sym(d)
    if name in ("get", "pop", "setdefault", "move_to_end") and anysym:
        f = find_key(d, a[0])
        if name == "get":
            if f[0]:
                with hash_ok:
                    return dict.__getitem__(d, f[1])
            return a[1] if len(a) > 1 else kw.get("default")
        if name == "pop":
            if f[0]:
                with hash_ok:
                    return type(d).pop(d, f[1])
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        if name == "setdefault":
            if f[0]:
                with hash_ok:
                    return dict.__getitem__(d, f[1])
            v = a[1] if len(a) > 1 else None
            dset(d, a[0], v)
            return v
        if name == "move_to_end":
            if not f[0]:
                raise KeyError(a[0])
            with hash_ok:
                return type(d).move_to_end(d, f[1], *a[1:], **kw)
    if name == "update" and (anysym or any(is_dict(o) and keys_sym(o) for o in a) or any(not hasattr(o, "keys") for o in a)):
        return dupdate(d, *a, **kw)
    if name == "copy" and anysym:
        with hash_ok:
            return type(d).copy(d)
    if name == "popitem" and anysym:
        with hash_ok:
            return type(d).popitem(d, *a, **kw)
    if name == "fromkeys":
        return mkdict((k, a[1] if len(a) > 1 else None) for k in a[0])
    return NO


def set_method(s, name, a, kw):
    anysym = keys_sym(s) or any(symkey(x) or (not is_sym(x) and isinstance(x, (set, frozenset, list, tuple, dict)) and keys_sym(x)) for x in a)
    if not anysym:
        if a and not isinstance(a[0], (set, frozenset, list, tuple, dict, str, int, type(None))) and name in ("update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
            a = [list(x) for x in a]
            if any(keys_sym(x) for x in a):
                return set_method(s, name, a, kw)
            return getattr(s, name)(*a)
        return NO
    if name == "add":
        return sadd(s, a[0])
    if name == "discard":
        sdiscard(s, a[0])
        return None
    if name == "remove":
        if not sdiscard(s, a[0]):
            raise KeyError(a[0])
        return None
    if name == "pop":
        with hash_ok:
            return set.pop(s)
    if name == "copy":
        with hash_ok:
            return s.copy()
    if name in ("update", "union", "__or__", "__ior__"):
        out = s if name in ("update", "__ior__") else mkset(s)
        for x in a:
            for i in list(x):
                sadd(out, i)
        return None if name == "update" else out
    others = [list(x) for x in a]
    inn = lambda i, o: any(bool(i == j) for j in o)
    if name in ("intersection", "__and__"):
        return mkset(i for i in list(s) if all(inn(i, o) for o in others))
    if name in ("difference", "__sub__"):
        return mkset(i for i in list(s) if not any(inn(i, o) for o in others))
    if name in ("intersection_update", "difference_update", "__iand__", "__isub__"):
        keep = name in ("intersection_update", "__iand__")
        for i in list(s):
            h = all(inn(i, o) for o in others) if keep else not any(inn(i, o) for o in others)
            if not h:
                sdiscard(s, i)
        return s if name.startswith("__") else None
    if name == "isdisjoint":
        return not any(inn(i, others[0]) for i in s)
    if name in ("issubset", "__le__"):
        return all(inn(i, others[0]) for i in s)
    if name in ("issuperset", "__ge__"):
        return all(inn(i, list(s)) for i in others[0])
    if name in ("symmetric_difference", "__xor__"):
        o = others[0]
        return mkset([i for i in s if not inn(i, o)] + [i for i in o if not inn(i, list(s))])
    leak("set.%s on symbolic elements" % name)


# ------------------------------------------------------------- hooks

def getitem(o, k):
    if is_dict(o):
        if type(o).__getitem__ is dict.__getitem__ or type(o).__getitem__ in (dict.__getitem__,):
            return dget(o, k)
        return o[k]
    return o[k]


def setitem(o, k, v):
    if is_dict(o) and type(o).__setitem__ in DICT_SETS:
        return dset(o, k, v)
    o[k] = v


def delitem(o, k):
    if is_dict(o) and type(o).__delitem__ in DICT_DELS:
        return ddel(o, k)
    del o[k]


import collections

DICT_SETS = {dict.__setitem__, collections.OrderedDict.__setitem__}
DICT_DELS = {dict.__delitem__, collections.OrderedDict.__delitem__}


def contains(k, o):
    if is_sym(o):
        return k in o
    if is_dict(o) or is_set(o):
        if type(o).__contains__ in (dict.__contains__, set.__contains__, frozenset.__contains__):
            return din(o, k)
        return k in o
    if type(o) is type({}.keys()):
        return any(bool(q == k) for q in o) if symkey(k) or keys_sym(o) else k in o
    if isinstance(o, (str, bytes)) and is_sym(k):
        if type(k) is SymInt:
            return k.__index__() in o
        return SymSeq.__contains__(_lift(o), k)
    return k in o


def _lift(s):
    """concrete str/bytes as a Sym string object (for its methods)"""
    return SymBytes(tuple(s)) if isinstance(s, (bytes, bytearray)) else SymStr(tuple(map(ord, s)))


def compare_is(a, b):
    if type(a) is SymBool and isinstance(b, bool):
        return a == b
    if type(b) is SymBool and isinstance(a, bool):
        return a == b
    if type(a) is SymEnum and not is_sym(b):
        return a == b
    if type(b) is SymEnum and not is_sym(a):
        return a == b
    return a is b


def mod(a, b):
    if isinstance(a, (str, bytes)) and not is_sym(a):
        if has_sym(b):
            return percent(a, b)
        return a % b
    return a % b


def percent(fmt, args):
    """printf formatting, %s %r %d %i %f with symbolic args"""
    import re
    parts = []
    if isinstance(args, dict) and not is_sym(args):
        pos = None
    else:
        pos = list(args) if isinstance(args, tuple) else [args]
    i = 0
    isb = isinstance(fmt, bytes)
    if isb:
        leak("bytes % symbolic")
    last = 0
    for m in re.finditer(r"%(\((\w+)\))?([#0\- +]*)(\d+|\*)?(\.\d+)?([sdrifgxu%])", fmt):
        parts.append(fmt[last:m.start()])
        last = m.end()
        if m.group(6) == "%":
            parts.append("%")
            continue
        v = args[m.group(2)] if pos is None else pos[i]
        i += 1
        if not has_sym(v):
            parts.append(("%" + (m.group(3) or "") + (m.group(4) or "") + (m.group(5) or "") + m.group(6)) % (v,))
        else:
            parts.append(fmt_one(v, m.group(6), (m.group(3) or "") + (m.group(4) or "") + (m.group(5) or "")))
    parts.append(fmt[last:])
    return mklazy(parts)


def fmt_one(v, conv, spec):
    if conv == "r":
        return ReprOf(v)
    if conv in "sdiu" and not spec:
        if conv in "diu" and type(v) is SymReal:
            return v.trunc()
        return v if is_sym(v) else ReprOf(v)
    return Opaque(v, "%" + spec + conv)


class ReprOf:
    def __init__(self, v):
        self.v = v

    def __str__(self):
        if type(self.v) in (SymInt, SymBool, SymEnum):
            return str(V.render(self.v))
        leak("repr of symbolic value rendered")


class Opaque(ReprOf):
    def __init__(self, v, spec):
        self.v, self.spec = v, spec

    def __str__(self):
        leak("formatted symbolic value rendered (%s)" % self.spec)


def mklazy(parts):
    out = []
    for p in parts:
        if type(p) is str:
            if p:
                if out and type(out[-1]) is str:
                    out[-1] += p
                else:
                    out.append(p)
        elif type(p) is LazyStr:
            out.extend(p.parts)
        else:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) in (str, SymStr):
        return out[0]
    if all(type(p) in (str, SymStr) for p in out):
        c = ()
        for p in out:
            c += SymStr.codes(p)
        return SymStr.mk(c)
    return LazyStr(out)


def fstr(*parts):
    """parts: str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if not has_sym(v) and not has_sym(spec):
                if conv == "r":
                    v = repr(v)
                elif conv == "s":
                    v = str(v)
                elif conv == "a":
                    v = ascii(v)
                out.append(format(v, spec))
            elif conv == "r":
                out.append(ReprOf(v))
            elif spec:
                if spec == "d" or (spec == "s" and type(v) in (SymStr, LazyStr)):
                    out.append(v)
                else:
                    out.append(Opaque(v, spec))
            else:
                out.append(v if is_sym(v) else ReprOf(v))
        else:
            out.append(p)
    return mklazy(out)


def enum_of(cls, v):
    """cls(v) for a symbolic integer value"""
    if type(v) is SymEnum and v.cls is cls:
        return v
    if type(v) is not SymInt:
        return cls(v)
    known = core.cur().enums.get(v.e.get_id())
    if known is not None and known[1] is cls:
        return SymEnum(cls, v.e)
    if bool(V.lor(*[v == m.value for m in cls])):
        return SymEnum(cls, v.e)
    raise ValueError("symbolic value is not a valid %s" % cls.__name__)



def enter(name):
    eng = core.CUR
    if eng is not None:
        eng.functions.add(name)


def call(f, /, *a, **kw):
    try:
        m = FUNCS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **kw)
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not kw and is_sym(a[0]):
        return enum_of(f, a[0])
    if type(f) is BUILTIN_METHOD or type(f) is METHOD_WRAPPER:
        s = getattr(f, "__self__", None)
        if s is not None and not inspect.ismodule(s) and not isinstance(s, type):
            return callm(s, f.__name__, *a, **kw)
    return f(*a, **kw)


BUILTIN_METHOD = type([].append)
METHOD_WRAPPER = type([].__len__)


def callm(o, name, /, *a, **kw):
    if not is_sym(o):
        if isinstance(o, dict) and getattr(type(o), name, None) in DICT_NATIVE:
            r = dict_method(o, name, a, kw)
            if r is not NO:
                return r
        elif isinstance(o, (set, frozenset)) and type(o) in (set, frozenset):
            r = set_method(o, name, a, kw)
            if r is not NO:
                return r
        elif isinstance(o, (str, bytes)):
            if a and type(o) in (str, bytes):
                if name == "join":
                    it = list(a[0])
                    if any(is_sym(i) for i in it):
                        return _lift(o).join(it)
                    return o.join(it)
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in kw.values()):
                    if name == "format":
                        return str_format(o, a, kw)
                    return getattr(_lift(o), name)(*a, **kw)
            elif kw and name == "format" and any(has_sym(x) for x in kw.values()):
                return str_format(o, a, kw)
    f = getattr(o, name)
    try:
        m = FUNCS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **kw)
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not kw and is_sym(a[0]):
        return enum_of(f, a[0])
    return f(*a, **kw)


DICT_NATIVE = set()
for _c in (dict, collections.OrderedDict, collections.defaultdict):
    for _n in ("get", "pop", "setdefault", "update", "copy", "popitem", "fromkeys", "move_to_end"):
        if hasattr(_c, _n):
            try:
                DICT_NATIVE.add(getattr(_c, _n))
            except TypeError:
                pass


def str_format(tmpl, a, kw):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        parts.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, a, kw)
        parts.append((v, conv, spec or ""))
    return fstr(*parts)


# ------------------------------------------------------------- builtins

@model(len)
def m_len(o):
    return len(o)


@model(int)
def m_int(v=0, base=None):
    t = type(v)
    if base is not None:
        if t in (SymStr, LazyStr):
            leak("int(symbolic, base)")
        return int(v, base)
    if t is SymInt:
        return v
    if t is SymBool:
        return SymInt(v._i())
    if t is SymEnum:
        return v.value
    if t is SymReal:
        return v.trunc()
    if t is SymFP:
        if v.isnan():
            raise ValueError("cannot convert float NaN to integer")
        if v.isinf():
            raise OverflowError("cannot convert float infinity to integer")
        return SymReal(z3.fpToReal(v.e)).trunc()
    if t in (SymStr, LazyStr, SymBytes):
        return parse_int(v)
    if is_sym(v):
        leak("int(%s)" % t)
    return int(v)


def parse_int(s):
    if type(s) is LazyStr and len(s.parts) == 1 and type(s.parts[0]) is SymInt:
        return s.parts[0]
    s = s.strip()
    err = ValueError("invalid literal for int() with base 10")
    if not is_sym(s):
        return int(s)
    c = list(s.c)
    neg = False
    if c and V.cbranch(V.ceq(c[0], 43)):
        c = c[1:]
    elif c and V.cbranch(V.ceq(c[0], 45)):
        neg = True
        c = c[1:]
    if not c:
        raise err
    total = z3.IntVal(0)
    prev = False
    digits = 0
    for k, ch in enumerate(c):
        if V.cbranch(V.ceq(ch, 95)):
            if not prev or k == len(c) - 1:
                raise err
            prev = False
            continue
        if not V.cbranch(V.cin(ch, 48, 57)):
            raise err
        prev = True
        digits += 1
        d = V.digit_value(ch)
        total = total * 10 + d
    r = z3.simplify(-total if neg else total)
    if not neg and not z3.is_int_value(r) and not any(isinstance(q, int) and q == 95 for q in c) and len(c) == digits:
        core.cur().digits[r.get_id()] = (r, c)
    return V._mk(r, False)


@model(float)
def m_float(v=0.0):
    t = type(v)
    if t in (SymReal, SymFP):
        return v
    if t in (SymInt, SymEnum):
        return SymReal(z3.ToReal(v.e))
    if t is SymBool:
        return SymReal(z3.ToReal(v._i()))
    if t in (SymStr, LazyStr):
        return parse_float(v)
    if is_sym(v):
        leak("float(%s)" % t)
    return float(v)


def parse_float(s):
    """decimal grammar [sign] digits [. digits]; exponents, inf and nan are split out by value"""
    s = s.strip()
    if not is_sym(s):
        return float(s)
    err = ValueError("could not convert string to float")
    c = list(s.c)
    neg = False
    if V.cbranch(V.ceq(c[0], 43)):
        c = c[1:]
    elif V.cbranch(V.ceq(c[0], 45)):
        neg = True
        c = c[1:]
    if not c:
        raise err
    low = SymStr.mk(c)
    low = low.lower()
    for w in ("inf", "infinity", "nan"):
        if len(c) == len(w) and bool(low == w):
            return float(("-" if neg else "") + w)
    total = z3.RealVal(0)
    scale = Fraction(1)
    seen_dot = digits = prev_digit = False
    exp = None
    for k, ch in enumerate(c):
        if V.cbranch(V.ceq(ch, 46)):
            if seen_dot:
                raise err
            seen_dot = True
            prev_digit = False
            continue
        if V.cbranch(z3.simplify(V.zor(V.ceq(ch, 101), V.ceq(ch, 69)))):
            if not digits:
                raise err
            rest = SymStr.mk(c[k + 1:])
            if not rest or (rest[:1] == "_") or rest != rest.strip():
                raise err
            try:
                e = parse_int(rest) if is_sym(rest) else int(rest)
            except ValueError:
                raise err
            exp = e.__index__()
            break
        if V.cbranch(V.ceq(ch, 95)):
            # between two digits only
            if not (k and prev_digit and k + 1 < len(c) and V.cbranch(V.cin(c[k + 1], 48, 57))):
                raise err
            continue
        if not V.cbranch(V.cin(ch, 48, 57)):
            raise err
        digits = prev_digit = True
        d = V.digit_value(ch)
        d = z3.ToReal(d)
        if seen_dot:
            scale /= 10
            total = total + d * z3.RealVal(str(scale))
        else:
            total = total * 10 + d
    if not digits:
        raise err
    if exp is not None:
        total = total * z3.RealVal(str(Fraction(10) ** exp))
    return SymReal(z3.simplify(-total if neg else total))


@model(str)
def m_str(*a, **k):
    if not a:
        return ""
    v = a[0]
    t = type(v)
    if len(a) > 1 or k:
        if t is SymBytes:
            return v.decode(*a[1:], **k)
        return str(*a, **k)
    if t in (SymStr, LazyStr):
        return v
    if is_sym(v):
        return LazyStr([v])
    if isinstance(v, BaseException) and type(v).__str__ in (BaseException.__str__, Exception.__str__):
        if len(v.args) == 1 and is_sym(v.args[0]):
            return m_str(v.args[0])
    return str(v)


@model(repr)
def m_repr(v):
    if has_sym(v):
        return LazyStr([ReprOf(v)])
    return repr(v)


@model(bytes)
def m_bytes(*a, **k):
    if a and is_sym(a[0]):
        if type(a[0]) is SymBytes:
            return a[0]
        if type(a[0]) in (SymStr, LazyStr):
            return a[0].encode(*a[1:])
        leak("bytes()")
    return bytes(*a, **k)


@model(bool)
def m_bool(v=False):
    t = type(v)
    if t is SymBool:
        return v
    if t is SymInt:
        return v != 0
    if t is SymReal:
        return v != 0
    return bool(v)


@model(isinstance)
def m_isinstance(o, c):
    return isinstance(o, c)


@model(type)
def m_type(*a, **kw):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a, **kw)


def _minmax(args, key, default, less):
    if len(args) == 1:
        args = list(args[0])
        if not args:
            if default is NO:
                raise ValueError("arg is an empty sequence")
            return default
    best = args[0]
    bk = best if key is None else key(best)
    for v in args[1:]:
        vk = v if key is None else key(v)
        c = less(vk, bk)
        if type(c) is SymBool:
            m = _ite(c, v, best) if key is None else None
            if m is not None:
                best = bk = m
                continue
        if c:
            best, bk = v, vk
    return best


def _ite(c, a, b):
    """merged If for numbers"""
    ta, tb = type(a), type(b)
    num = (SymInt, SymReal, int, float, Fraction)
    if ta in num and tb in num:
        na, nb = V._num(a), V._num(b)
        if isinstance(na[0], str) or isinstance(nb[0], str):
            return None
        if na[1] != nb[1]:
            return None
        return V._mk(z3.simplify(z3.If(c.e, na[0], nb[0])), na[1])
    return None


@model(max)
def m_max(*a, key=None, default=NO):
    return _minmax(a, key, default, lambda x, y: x > y)


@model(min)
def m_min(*a, key=None, default=NO):
    return _minmax(a, key, default, lambda x, y: x < y)


@model(range)
def m_range(*a):
    if not any(is_sym(i) for i in a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else 1
    return _Range(lo, hi, st)


class _Range:
    def __init__(self, lo, hi, st):
        if is_sym(st):
            st = st.__index__()
        self.lo, self.hi, self.st = lo, hi, st

    def __iter__(self):
        i, n = self.lo, 0
        while bool(i < self.hi if self.st > 0 else i > self.hi):
            yield i
            i = i + self.st
            n += 1
            if n > 200:
                leak("unbounded symbolic range")

    def _c(self):
        f = lambda v: v.__index__()
        return range(f(self.lo), f(self.hi), self.st)

    def __len__(self):
        return len(self._c())

    def __getitem__(self, i):
        return self._c()[i]

    def __contains__(self, v):
        return bool(v >= self.lo) and bool(v < self.hi) if self.st == 1 else v in self._c()

    def __reversed__(self):
        return reversed(self._c())


@model(itertools.islice)
def m_islice(it, *a):
    if any(is_sym(i) for i in a):
        if len(a) == 1:
            def gen():
                n, k = a[0], 0
                src = iter(it)
                while bool(k < n):
                    try:
                        v = next(src)
                    except StopIteration:
                        return
                    yield v
                    k += 1
            if bool(a[0] < 0):
                raise ValueError("Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
            return gen()
        a = [None if i is None else i.__index__() for i in a]
    return itertools.islice(it, *a)


@model(set)
def m_set(it=()):
    return mkset(it)


@model(frozenset)
def m_frozenset(it=()):
    return mkset(it, frozenset)


@model(dict)
def m_dict(*a, **kw):
    if a and (is_dict(a[0]) and not keys_sym(a[0])):
        return dict(a[0], **kw)
    out = {}
    dupdate(out, *a, **kw)
    return out


@model(collections.OrderedDict)
def m_odict(*a, **kw):
    out = collections.OrderedDict()
    dupdate(out, *a, **kw)
    return out


@model(sum)
def m_sum(it, start=0):
    t = start
    for i in it:
        t = t + i
    return t


@model(abs)
def m_abs(v):
    return abs(v)


@model(ord)
def m_ord(s):
    if is_sym(s):
        if len(s.c) != 1:
            raise TypeError("ord() expected a character")
        c = s.c[0]
        return c if isinstance(c, int) else SymInt(z3.BV2Int(c))
    return ord(s)


@model(format)
def m_format(v, spec=""):
    return fstr((v, None, spec)) if is_sym(v) else format(v, spec)


@model(math.isnan)
def m_isnan(v):
    if type(v) is SymFP:
        return v.isnan()
    if type(v) in (SymReal, SymInt):
        return False
    return math.isnan(v)


@model(math.isinf)
def m_isinf(v):
    if type(v) is SymFP:
        return v.isinf()
    if type(v) in (SymReal, SymInt):
        return False
    return math.isinf(v)


@model(math.isfinite)
def m_isfinite(v):
    if type(v) is SymFP:
        return V.B(z3.Not(z3.Or(z3.fpIsNaN(v.e), z3.fpIsInf(v.e))))
    if type(v) in (SymReal, SymInt):
        return True
    return math.isfinite(v)


@model(math.floor)
def m_floor(v):
    return math.floor(v) if not is_sym(v) else v.__floor__()


@model(math.ceil)
def m_ceil(v):
    return math.ceil(v) if not is_sym(v) else v.__ceil__()


@model(operator.contains)
def m_contains(a, b):
    return contains(b, a)


@model(operator.getitem)
def m_getitem(a, b):
    return getitem(a, b)


# ------------------------------------------------------------- library

class JsonText:
    """opaque result of json.dumps of a value with symbolic parts"""
    def __init__(self, v):
        self.v = v

    def encode(self, *a):
        return JsonBytes(self.v)


class JsonBytes(JsonText):
    def decode(self, *a):
        return JsonText(self.v)

    def __add__(self, o):
        if isinstance(o, bytes) and not o.strip():
            return self
        return NotImplemented


def jsonable(v):
    """what a JSON round trip makes of v (raises TypeError as json.dumps would)"""
    t = type(v)
    if is_sym(v):
        if t is SymBytes:
            raise TypeError("Object of type bytes is not JSON serializable")
        return v
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, dict):
        out = {}
        for k, i in v.items():
            if not is_sym(k) and not isinstance(k, str):
                if k is None or isinstance(k, (bool, int, float)):
                    k = json.loads(json.dumps({k: 0})).popitem()[0] if False else next(iter(json.loads(json.dumps({k: 0}))))
                else:
                    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            dset(out, k, jsonable(i))
        return out
    if isinstance(v, (list, tuple)):
        return [jsonable(i) for i in v]
    raise TypeError("Object of type %s is not JSON serializable" % type(v).__name__)


def deep_sym(v):
    return has_sym(v, 8)


@model(json.dumps)
def m_dumps(v, *a, **k):
    if deep_sym(v):
        if k.get("default") is not None or k.get("cls") is not None:
            leak("json.dumps with encoder")
        return JsonText(jsonable(v))
    return json.dumps(v, *a, **k)


@model(json.loads)
def m_loads(s, *a, **k):
    if isinstance(s, JsonText):
        return jsonable(s.v)
    if is_sym(s):
        leak("json.loads of symbolic text")
    return json.loads(s, *a, **k)


@model(json.load)
def m_load(fp, *a, **k):
    return m_loads(fp.read(), *a, **k)


@model(json.dump)
def m_dump(v, fp, *a, **k):
    if deep_sym(v):
        fp.write(m_dumps(v, *a, **k))
    else:
        json.dump(v, fp, *a, **k)


_B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


@model(os.path.join)
def m_join(a, *p):
    if not has_sym((a,) + p):
        return os.path.join(a, *p)
    path = a
    for b in p:
        if b.startswith("/"):
            path = b
        elif not path or path.endswith("/"):
            path = path + b
        else:
            path = path + "/" + b
    return path


@model(functools.partial)
def m_partial(f, *a, **k):
    return functools.partial(f, *a, **k)
