"""Path engine: exploration by re-execution, z3 deciding every branch and assertion.

A harness is a function h(x) run many times.  Each run follows one path; `branch` and
`choose` are the only sources of nondeterminism.  The path condition is kept in a z3
solver; both sides of a branch are checked for feasibility the first time it is met.
"""
import time as _time
from fractions import Fraction

import z3

from . import zfast

_perf = _time.perf_counter


class PathAbort(KeyboardInterrupt):
    """Ends the current path (KeyboardInterrupt so that no task or handler eats it)."""


class Infeasible(PathAbort):
    pass


class StopPath(PathAbort):
    pass


class Inconclusive(PathAbort):
    """The engine cannot decide (leak of a symbolic value, solver unknown, limit)."""


class StubMissing(PathAbort):
    """Code under test used a part of a stub which the harness does not model."""


CUR = None  # engine of the current path


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside of a path")
    return CUR


class Violation:
    def __init__(self, label, model, info, path):
        self.label, self.model, self.info, self.path = label, model, info, path


class Tag:
    """identifies a branch condition across runs: the same hash, or (argument order may differ after simplification) the same variables"""
    __slots__ = ("h", "e")

    def __init__(self, e):
        self.h, self.e = e.hash(), e

    def __eq__(self, o):
        return isinstance(o, Tag) and (self.h == o.h or leaves(self.e) == leaves(o.e))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def leaves(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        n = todo.pop()
        if n.get_id() in seen:
            continue
        seen.add(n.get_id())
        if n.num_args() == 0:
            if n.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(str(n))
        else:
            todo.extend(n.children())
    return out


class Engine:
    def __init__(self, max_paths=200000, time_limit=600, query_ms=20000, seed=1, max_viol=3, keep_models=6):
        self.max_paths, self.time_limit, self.query_ms = max_paths, time_limit, query_ms
        self.seed, self.max_viol, self.keep_models = seed, max_viol, keep_models
        self.paths = self.aborted = self.branches = self.queries = self.asserts = 0
        self.solver_s = 0.0
        self.reached = {}
        self.violations = []
        self.samples = []
        self.known = {}
        self.problems = []
        self.undecided = 0
        self.functions = set()
        self.concretised = {}
        self.assumes = 0
        self.complete = False
        self.work = [[]]

    # ---- exploration -------------------------------------------------
    def explore(self, run):
        """run(engine) executes one path of the harness."""
        global CUR
        t0 = _perf()
        while self.work:
            if self.paths >= self.max_paths:
                self.problems.append("path limit %d reached" % self.max_paths)
                break
            if _perf() - t0 > self.time_limit:
                self.problems.append("time limit %ds reached after %d paths" % (self.time_limit, self.paths))
                break
            if len(self.violations) >= self.max_viol:
                break
            self.prefix = self.work.pop()
            self.start_path()
            CUR = self
            done = False
            try:
                try:
                    run(self)
                except (StopPath, Inconclusive, StubMissing):
                    self.settle()
                    raise
                self.settle()
                done = True
            except Infeasible:
                self.aborted += 1
            except StopPath:
                done = True
            except (Inconclusive, StubMissing) as exc:
                import traceback
                tb = traceback.format_exc().splitlines()
                self.problems.append("%s: %s | %s" % (type(exc).__name__, exc, " ".join(s.strip() for s in tb[-12:])))
            finally:
                CUR = None
            if self.aborting is not None and done and not isinstance(self.aborting, (Infeasible, StopPath)):
                self.problems.append("%s: %s" % (type(self.aborting).__name__, self.aborting))
            if len(self.problems) >= 3:
                break
            self.paths += 1
            if done:
                self.end_path()
        else:
            self.complete = True
        if self.violations:
            self.complete = False
        self.wall = _perf() - t0

    def settle(self):
        ab, self.aborting = self.aborting, None
        try:
            self.flush()
        except StopPath:
            pass
        finally:
            self.aborting = ab or self.aborting

    def start_path(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("random_seed", self.seed)
        self.pos = 0
        self.trace = []
        self.cache = {}
        self.inputs = {}
        self.counter = {}
        self.obs = []
        self.aborting = None
        self.pending = []
        self.enums = {}
        self.digits = {}
        self.quots = {}

    def abort(self, exc):
        self.aborting = exc
        raise exc

    def end_path(self):
        n = len(self.samples)
        if n < self.keep_models or (self.paths % 37 == 0 and n < 4 * self.keep_models):
            if self.undecided and not self.feasible(z3.BoolVal(True)):
                return
            self.solver.set("timeout", min(self.query_ms, 3000))
            m = self.solver.model() if self.solver.check() == z3.sat else None      # only a sample: skipped if it is not found in time
            self.solver.set("timeout", self.query_ms)
            if m is not None:
                self.samples.append({"model": self.model_values(m), "obs": [(l, self.eval_obs(m, v)) for l, v in self.obs],
                                     "path": "".join(str(d) if type(d) is int and d < 10 else "(%s)" % (d,) for d in (t[0] for t in self.trace))[:300]})

    # ---- solver ------------------------------------------------------
    def query(self, *assumptions):
        self.queries += 1
        t = _perf()
        r = self.solver.check(*assumptions)
        self.solver_s += _perf() - t
        if r == z3.unknown:
            self.abort(Inconclusive("solver unknown: %s" % self.solver.reason_unknown()))
        return r == z3.sat

    def feasible(self, c):
        """a branch the solver cannot rule out in time is explored (its assertions still have to be decided)"""
        self.queries += 1
        t = _perf()
        self.solver.set("timeout", min(self.query_ms, 4000))
        r = self.solver.check(c)
        self.solver.set("timeout", self.query_ms)
        self.solver_s += _perf() - t
        if r == z3.unknown:
            self.undecided += 1
            if self.undecided > 200:
                self.abort(Inconclusive("too many branches the solver cannot decide"))
        return r != z3.unsat

    def get_model(self, *assumptions):
        if self.query(*assumptions):
            return self.solver.model()
        return None

    def add(self, c):
        self.solver.add(c)

    def assume(self, cond):
        self.assumes += 1
        self.flush()
        c = to_z3bool(cond)
        if c is True:
            return
        if c is False:
            self.abort(Infeasible())
        self.add(c)
        if self.pos >= len(self.prefix) and not self.query():
            self.abort(Infeasible())

    # ---- decisions ---------------------------------------------------
    def _decide(self, n, feasible, constrain, tag):
        """Generic n-way decision. feasible(i) -> bool, constrain(i) adds to the solver."""
        if self.aborting is not None:
            raise self.aborting
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            d, t = ent[0], ent[1] if len(ent) == 2 else None
            if t != tag:
                self.abort(Inconclusive("harness is not deterministic (decision %d)" % self.pos))
        else:
            opts = [i for i in range(n) if feasible(i)]
            if not opts:
                self.abort(Infeasible())
            d = opts[0]
            for o in opts[:0:-1]:
                self.work.append(self.trace + [(o, tag)])
            self.prefix = self.prefix + [(d, tag)]
            if len(opts) > 1:
                self.branches += len(opts) - 1
        self.pos += 1
        self.trace.append((d, tag))
        constrain(d)
        return d

    def branch(self, cond):
        if self.aborting is not None:
            raise self.aborting
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        hit = self.cache.get(k)
        if hit is not None:
            return hit[1]
        simp = z3.simplify(cond)
        if z3.is_true(simp):
            self.cache[k] = (cond, True)
            return True
        if z3.is_false(simp):
            self.cache[k] = (cond, False)
            return False
        k2 = simp.get_id()
        hit = self.cache.get(k2)
        if hit is not None:
            return hit[1]
        neg = z3.Not(simp)
        res = {}

        def feasible(i):
            if i == 0:
                res[0] = self.feasible(simp)
                return res[0]
            if not res[0]:
                return True
            return self.feasible(neg)

        d = self._decide(2, feasible, lambda i: self.add(simp if i == 0 else neg), Tag(simp))
        val = d == 0
        self.cache[k] = (cond, val)
        self.cache[k2] = (simp, val)
        return val

    def choose(self, name, n):
        """A fresh symbolic integer in range(n), split by value."""
        if n <= 0:
            self.abort(Infeasible())
        var = z3.Int(self.fresh(name))
        self.inputs[str(var)] = ("int", var, 0)
        if n == 1:
            self.add(var == 0)
            return 0
        self.add(z3.And(var >= 0, var < n))
        return self._decide(n, lambda i: True, lambda i: self.add(var == i), name)

    def concretise(self, expr, limit=64, why=""):
        """All feasible values of expr, one per path (complete unless the limit is hit)."""
        expr = z3.simplify(expr)
        v = const_value(expr)
        if v is not None:
            return v
        if self.aborting is not None:
            raise self.aborting
        for _ in range(limit):
            if self.pos < len(self.prefix):
                ent = self.prefix[self.pos]
                if len(ent) != 3:
                    self.abort(Inconclusive("harness is not deterministic (value %d)" % self.pos))
                val, d, _ = ent
            else:
                m = self.get_model()
                if m is None:
                    self.abort(Infeasible())
                val, d = m.eval(expr, model_completion=True), 0
                if self.query(expr != val):
                    self.work.append(self.trace + [(val, 1, 'v')])
                    self.branches += 1
                self.prefix = self.prefix + [(val, d, 'v')]
            self.pos += 1
            self.trace.append((val, d, 'v'))
            if d == 0:
                self.add(expr == val)
                self.concretised[why] = self.concretised.get(why, 0) + 1
                return const_value(val)
            self.add(expr != val)
        self.abort(Inconclusive("value of %s not bounded (%s)" % (expr, why)))

    # ---- inputs ------------------------------------------------------
    def fresh(self, name):
        i = self.counter.get(name, 0)
        self.counter[name] = i + 1
        return name if i == 0 else "%s#%d" % (name, i)

    def model_values(self, m):
        out = {}
        for name, (kind, expr, default) in self.inputs.items():
            v = m.eval(expr, model_completion=True)
            out[name] = encode_value(kind, v)
        return out

    def eval_obs(self, m, v):
        from .values import Sym, eval_sym
        return eval_sym(m, v)

    def quotient(self, a, b):
        """floor(a / b) for a positive symbolic divisor, by its defining inequalities"""
        a = z3.simplify(a)
        k = (a.get_id(), b.get_id())
        hit = self.quots.get(k)
        if hit is None:
            q = z3.Int(self.fresh("!quot"))
            p = z3.ToReal(q) if a.is_real() else q
            self.add(z3.And(p * b <= a, a < p * b + b, z3.Implies(a >= 0, q >= 0)))
            hit = self.quots[k] = (q, a, b)
        return hit[0]

    # ---- assertions --------------------------------------------------
    def check(self, cond, label, info=None):
        self.asserts += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        c = to_z3bool(cond)
        if c is True:
            return
        if c is False:
            self.flush()
            m = self.get_model()
            if m is None:
                self.abort(Infeasible())
            self._violate(label, m, info)
            self.abort(StopPath())
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pending.append((c, label, info))

    def flush(self):
        """decide the assertions collected since the last flush (all at once, then one by one)"""
        todo, self.pending = self.pending, []
        if not todo:
            return
        bad = z3.Not(z3.And([c for c, _, _ in todo])) if len(todo) > 1 else z3.Not(todo[0][0])
        if not self.query(bad):
            return
        for c, label, info in todo:
            m = self.get_model(z3.Not(c))
            if m is not None:
                self._violate(label, m, info)
                self.add(c)
                if not self.query():
                    self.pending = []
                    self.abort(StopPath())

    def _violate(self, label, m, info):
        vals = self.model_values(m)
        try:
            obs = [(l, self.eval_obs(m, v)) for l, v in self.obs]
        except PathAbort:
            raise
        self.violations.append({"label": label, "model": vals, "info": str(info) if info is not None else "", "obs": obs})

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1


def encode_value(kind, v):
    if kind == "int":
        return v.as_long()
    if kind == "bool":
        return z3.is_true(v)
    if kind == "real":
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
    if kind == "bv":
        return v.as_long()
    if kind == "fp":
        f = fp_to_float(v)
        return "nan" if f != f else f.hex()
    raise AssertionError(kind)


def fp_to_float(v):
    s = z3.simplify(z3.fpToIEEEBV(v)) if not isinstance(v, float) else None
    if s is None:
        return v
    import struct
    if not z3.is_bv_value(s):
        return float("nan")
    return struct.unpack("<d", struct.pack("<Q", s.as_long()))[0]


def const_value(e):
    if z3.is_int_value(e) or z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


SYMBOOL = None     # set by values


def to_z3bool(c):
    if c is True or c is False:
        return c
    if type(c) is SYMBOOL:
        c = c.e
    if isinstance(c, z3.ExprRef):
        v = zfast._bool_value(zfast._ref, c.ast)
        return True if v == 1 else False if v == -1 else c
    return bool(c)
