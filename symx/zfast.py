"""Faster constructors for the z3 calls made most often (same terms, less Python overhead)."""
import z3
import z3.z3core as c
from z3 import z3 as zz

_ctx = zz.main_ctx()
_ref = _ctx.ref()
_Ast = zz.Ast
BoolRef, ExprRef = zz.BoolRef, zz.ExprRef
_slow_and, _slow_or, _slow_not, _slow_simplify, _slow_int = zz.And, zz.Or, zz.Not, zz.simplify, zz.IntVal
_bool_value = c.Z3_get_bool_value
_get_kind = c.Z3_get_sort_kind
TRUE, FALSE = zz.BoolVal(True), zz.BoolVal(False)
_BOOL = z3.Z3_BOOL_SORT


def is_true(e):
    return isinstance(e, BoolRef) and _bool_value(_ref, e.ast) == 1


def is_false(e):
    return isinstance(e, BoolRef) and _bool_value(_ref, e.ast) == -1


def _arr(es):
    n = len(es)
    a = (_Ast * n)()
    for i in range(n):
        a[i] = es[i].ast
    return a


def And(*es):
    if len(es) == 1 and isinstance(es[0], (list, tuple)):
        es = es[0]
    es = [TRUE if e is True else FALSE if e is False else e for e in es]
    if not all(isinstance(e, BoolRef) for e in es) or not es:
        return _slow_and(*es)
    return BoolRef(c.Z3_mk_and(_ref, len(es), _arr(es)), _ctx)


def Or(*es):
    if len(es) == 1 and isinstance(es[0], (list, tuple)):
        es = es[0]
    es = [TRUE if e is True else FALSE if e is False else e for e in es]
    if not all(isinstance(e, BoolRef) for e in es) or not es:
        return _slow_or(*es)
    return BoolRef(c.Z3_mk_or(_ref, len(es), _arr(es)), _ctx)


def Not(e):
    if isinstance(e, BoolRef):
        return BoolRef(c.Z3_mk_not(_ref, e.ast), _ctx)
    return _slow_not(e)


def simplify(e, *a, **k):
    if a or k or not isinstance(e, BoolRef):
        return _slow_simplify(e, *a, **k)
    return BoolRef(c.Z3_simplify(_ref, e.ast), _ctx)


_ints = {}


def IntVal(v, ctx=None):
    if type(v) is int:
        r = _ints.get(v)
        if r is None:
            r = _slow_int(v)
            if len(_ints) < 5000:
                _ints[v] = r
        return r
    return _slow_int(v)


def BoolVal(v, ctx=None):
    return TRUE if v is True else FALSE if v is False else zz.BoolVal(v)


def eq(a, b):
    """a == b for terms of the same sort"""
    return BoolRef(c.Z3_mk_eq(_ref, a.ast, b.ast), _ctx)


_CMP = {"lt": c.Z3_mk_lt, "le": c.Z3_mk_le, "gt": c.Z3_mk_gt, "ge": c.Z3_mk_ge, "eq": c.Z3_mk_eq}


def cmp(op, a, b):
    """comparison of arithmetic terms of the same sort, simplified"""
    if op == "ne":
        t = c.Z3_mk_eq(_ref, a.ast, b.ast)
        r = BoolRef(t, _ctx)
        return simplify(Not(r))
    r = BoolRef(_CMP[op](_ref, a.ast, b.ast), _ctx)
    return BoolRef(c.Z3_simplify(_ref, r.ast), _ctx)


z3.is_true, z3.is_false, z3.And, z3.Or, z3.Not, z3.simplify, z3.IntVal, z3.BoolVal = is_true, is_false, And, Or, Not, simplify, IntVal, BoolVal
