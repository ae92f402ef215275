"""Executes the SSA form of Go functions, printed by ../gossa from the current source, on concrete and symbolic values."""
import json
import operator
import os
import shutil
import subprocess
import tempfile
import threading

from .common import REPO, VERIF

GOENV = dict(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0")


def goenv(cache=None):
    e = dict(os.environ, **GOENV)
    e["HOME"] = os.environ.get("HOME", "/root")
    if cache:
        e["GOCACHE"] = cache
    return e


def warm_cache(d):
    """a build cache of our own, starting from that of the repository's build if there is one"""
    c = os.path.join(d, "gocache")
    src = "/opt/vp/cache/go-build"
    if os.path.isdir(src):
        shutil.copytree(src, c)
    else:
        os.makedirs(c)
    return c


def dump(packages, roots=(), stop=()):
    """SSA of all functions of the packages and of what they call"""
    d = tempfile.mkdtemp(prefix="gossa-")
    try:
        tool = os.path.join(d, "gossa")
        env = goenv(os.path.join(d, "cache"))
        default = os.path.expanduser("~/.cache/go-build")
        env["GOFLAGS"] = "-mod=mod"
        src = os.path.join(d, "src")
        shutil.copytree(os.path.join(VERIF, "gossa"), src)
        subprocess.run(["go", "build", "-o", tool, "."], cwd=src, env=env, check=True, capture_output=True)
        env["GOFLAGS"] = "-mod=readonly"
        p = subprocess.run([tool, os.path.join(REPO, "dask-gateway-server/dask-gateway-proxy"), *packages], input=json.dumps({"roots": list(roots), "stop": list(stop)}), capture_output=True, text=True, env=env)
        if p.returncode:
            raise RuntimeError("gossa failed: " + p.stderr[-2000:])
        return json.loads(p.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class GoPanic(Exception):
    def __init__(self, value):
        super().__init__(str(value))
        self.value = value


class Blocked(Exception):
    """a goroutine that waits for something that never comes"""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        if type(self.v) in (Struct, Arr) and type(v) is type(self.v):
            self.v.v[:] = v.v
        else:
            self.v = v


class SlotPtr:
    """points into a struct, an array or a slice"""
    __slots__ = ("o", "i")

    def __init__(self, o, i):
        self.o, self.i = o, i

    def get(self):
        return self.o[self.i]

    def set(self, v):
        old = self.o[self.i]
        if type(old) in (Struct, Arr) and type(v) is type(old):
            old.v[:] = v.v
        else:
            self.o[self.i] = v

    def __eq__(self, p):
        return type(p) is SlotPtr and p.o is self.o and p.i == self.i

    __hash__ = None


class Struct:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Arr:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Slice:
    __slots__ = ("a", "off", "n", "cap")

    def __init__(self, a, off=0, n=None, cap=None):
        self.a, self.off = a, off
        self.n = len(a) - off if n is None else n
        self.cap = len(a) - off if cap is None else cap

    def items(self):
        return self.a[self.off:self.off + self.n]


class GoMap:
    __slots__ = ("items",)

    def __init__(self):
        self.items = []


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __repr__(self):
        return "Iface(%s, %r)" % (self.t, self.v)


class Func:
    __slots__ = ("name", "free")

    def __init__(self, name, free=()):
        self.name, self.free = name, free


class Chan:
    def __init__(self):
        self.q, self.closed = [], False


class Native:
    """an object of a modelled type; its methods are go_NAME"""
    def get(self):
        return self


class Killed(BaseException):
    pass


class Routine:
    """a goroutine: runs only while whoever resumed it waits"""
    alive = []
    current = None

    def __init__(self, fn):
        self.fn, self.exc, self.done, self.kill, self.thread = fn, None, False, False, None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)

    def body(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.fn()
        except Killed:
            pass
        except BaseException as e:
            self.exc = e
        self.done = True
        self.back.release()

    def resume(self):
        before, Routine.current = Routine.current, self
        if self.thread is None:
            self.thread = threading.Thread(target=self.body, daemon=True)
            Routine.alive.append(self)
            self.thread.start()
        self.go.release()
        self.back.acquire()
        Routine.current = before
        if self.done:
            self.thread.join()
            Routine.alive.remove(self)
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e

    def leave(self):
        """back to whoever resumed it"""
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise Killed()

    @classmethod
    def kill_all(cls):
        for r in cls.alive[:]:
            r.kill = True
            r.go.release()
            r.back.acquire()
            r.thread.join()
        cls.alive, cls.current = [], None


def copyval(v):
    if type(v) is Struct:
        return Struct(v.t, [copyval(i) for i in v.v])
    if type(v) is Arr:
        return Arr([copyval(i) for i in v.v])
    return v


threading.stack_size(64 << 20)
BITS = {"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64, "rune": 32}
UBITS = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64, "uintptr": 64, "byte": 8}


def wrap(v, b):
    if type(v) is not int:
        return v
    n = UBITS.get(b)
    if n:
        return v & ((1 << n) - 1)
    n = BITS.get(b)
    if n:
        v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v
    return v


def go_text(s):
    """bytes of a Go string as characters"""
    return s.encode("utf-8").decode("latin-1") if type(s) is str and not s.isascii() else s


class Program:
    """the printed functions, prepared for execution"""
    def __init__(self, d):
        self.types, self.globals = d["types"], d["globals"]
        for t in self.types.values():
            for k in ("fields", "elems", "methods"):
                if k in t and t[k] is None:
                    t[k] = []
        self.fns = {}
        for name, f in d["functions"].items():
            self.fns[name] = self.prepare(name, f)
        self.known = d["functions"].keys()

    def prepare(self, name, f):
        return {"name": name, "params": f["params"], "free": f["free"], "blocks": f["blocks"], "recover": f.get("recover"), "pos": f.get("pos", ""), "results": f["results"]}

    def under(self, t):
        d = self.types[t]
        while "under" in d:
            d = self.types[d["under"]]
        return d

    def basic(self, t):
        return self.under(t).get("basic", "").replace("untyped ", "")


def string_method(k):
    return k


class Interp:
    def __init__(self, program, x, natives, max_steps=400000):
        from . import models as M
        from . import values as V
        self.M, self.V = M, V
        self.p, self.x, self.natives, self.max_steps = program, x, natives, max_steps
        self.steps = 0
        self.globals = {}
        self.initialised = set()
        self.pending = []           # goroutines not run yet
        self.used = set()
        self.depth = 0
        Routine.kill_all()
        self.panics = []
        self.waiting = []           # goroutines and what they wait for

    # ---------------------------------------------------------- values
    def zero(self, t):
        d = self.p.under(t)
        b = d.get("basic")
        if b is not None:
            b = b.replace("untyped ", "")
            if b == "string":
                return ""
            if b == "bool":
                return False
            if b.startswith("float"):
                return 0.0
            if b in ("unsafe.Pointer", "Pointer", "nil"):
                return None
            return 0
        k = d["kind"]
        if k == "struct":
            return Struct(t, [self.zero(f["type"]) for f in d["fields"]])
        if k == "array":
            return Arr([self.zero(d["elem"]) for _ in range(d["len"])])
        if k == "tuple":
            return tuple(self.zero(e) for e in d["elems"])
        return None

    def field(self, s, name):
        """slot of a struct's field by name"""
        s = s.get() if hasattr(s, "get") else s
        for i, f in enumerate(self.p.under(s.t)["fields"]):
            if f["name"] == name:
                return SlotPtr(s.v, i)
        self.x.missing("Go field %s" % name)

    def new(self, t, **kw):
        s = self.zero(t)
        for k, v in kw.items():
            self.field(s, k).set(v)
        return Cell(s)

    def const(self, o):
        t = o["type"]
        v = o["const"]
        if o.get("string"):
            return go_text(v)
        if isinstance(v, bool) or isinstance(v, float):
            return v
        b = self.p.basic(t)
        if isinstance(v, (str, int)):
            if b.startswith("float"):
                return float(v)
            return int(v)
        self.x.missing("Go constant of %s" % t)

    def glob(self, g):
        c = self.globals.get(g)
        if c is None:
            info = self.p.globals[g]
            c = self.globals[g] = Cell(self.zero(self.p.types[info["type"]]["elem"]))
            pkg = info.get("pkg")
            if pkg is not None and pkg not in self.initialised:
                self.initialised.add(pkg)
                if pkg + ".init" in self.p.fns:
                    self.run(pkg + ".init", [])
                else:
                    self.native_global(g, c)
            elif pkg is not None and pkg + ".init" not in self.p.fns:
                self.native_global(g, c)
        return c

    def native_global(self, g, c):
        v = self.natives.get("global " + g)
        if v is not None:
            c.v = v
        elif self.p.types[self.p.globals[g]["type"]]["elem"] == "error":
            e = Native()
            e.go_Error = lambda: g
            c.v = Iface("native error", e)

    def val(self, fr, o):
        if type(o) is str:
            return fr[o]
        if o is None:
            return None
        if "const" in o:
            c = o.get("cached")
            if c is None:
                c = o["cached"] = (self.const(o),)
            return c[0]
        if "zero" in o:
            return self.zero(o["zero"])
        if "func" in o:
            return Func(o["func"])
        if "global" in o:
            return self.glob(o["global"])
        if "builtin" in o:
            return Func("builtin " + o["builtin"])
        self.x.missing("Go operand %s" % o)

    def is_sym(self, v):
        return self.V.is_sym(v)

    def neg(self, v):
        return self.V.negate(v)

    def eq(self, a, b):
        """Go's == (True, False or symbolic)"""
        ta, tb = type(a), type(b)
        if ta is Iface or tb is Iface:
            if a is None or b is None:
                return a is None and b is None
            if ta is Iface and tb is Iface:
                return a.t == b.t and self.eq(a.v, b.v)
            return False
        if ta is Struct and tb is Struct:
            for i, j in zip(a.v, b.v):
                if not self.eq(i, j):
                    return False
            return True
        if ta is Arr and tb is Arr:
            return all(bool(self.eq(i, j)) for i, j in zip(a.v, b.v))
        if a is None or b is None:
            return a is b
        if ta in (Cell, Slice, GoMap, Func, Chan) or isinstance(a, Native):
            return a is b
        return a == b

    def nil(self, p):
        if p is None:
            raise GoPanic("invalid memory address or nil pointer dereference")
        return p

    # ---------------------------------------------------------- maps
    def mfind(self, m, k):
        for it in m.items:
            if self.eq(it[0], k):
                return it
        return None

    def mget(self, m, k, zero=None):
        it = self.mfind(m, k) if m is not None else None
        return (it[1], True) if it is not None else (zero, False)

    def mset(self, m, k, v):
        if m is None:
            raise GoPanic("assignment to entry in nil map")
        it = self.mfind(m, k)
        if it is not None:
            it[1] = v
        else:
            m.items.append([k, v])

    def mdel(self, m, k):
        if m is not None:
            it = self.mfind(m, k)
            if it is not None:
                m.items = [i for i in m.items if i is not it]

    # ---------------------------------------------------------- strings and bytes
    def to_bytes(self, s):
        return Slice([self.byte_at(s, i) for i in range(len(s))])

    def byte_at(self, s, i):
        return self.M.m_ord(s[i])

    def to_string(self, sl):
        if sl is None:
            return ""
        cs = []
        for b in sl.items():
            cs.append(self.code(b))
        return self.V.SymStr.mk(cs)

    def code(self, b):
        if type(b) is int:
            return b
        e = b.e
        import z3
        if e.decl().kind() == z3.Z3_OP_BV2INT:
            return e.arg(0)
        return z3.simplify(z3.Int2BV(e, 8))

    # ---------------------------------------------------------- calls
    def call(self, fr, c):
        args = [self.val(fr, a) for a in c["args"]]
        if "invoke" in c:
            return self.invoke(self.val(fr, c["recv"]), c["invoke"], args)
        f = c["fn"]
        if type(f) is dict and "builtin" in f:
            return self.builtin(f["builtin"], args)
        return self.apply(self.val(fr, f), args)

    def prepared(self, fr, c):
        """the call with its operands evaluated, for go and defer"""
        args = [copyval(self.val(fr, a)) for a in c["args"]]
        if "invoke" in c:
            r = self.val(fr, c["recv"])
            return lambda: self.invoke(r, c["invoke"], args)
        f = c["fn"]
        if type(f) is dict and "builtin" in f:
            return lambda: self.builtin(f["builtin"], args)
        fn = self.val(fr, f)
        return lambda: self.apply(fn, args)

    def apply(self, f, args):
        if f is None:
            raise GoPanic("invalid memory address or nil pointer dereference")
        if type(f) is Func:
            return self.run(f.name, args, f.free)
        return f(*args)

    def method(self, t, name):
        """name of the function that implements a method of a dynamic type"""
        d = self.p.types.get(t)
        if d is None:
            return None
        if d.get("kind") == "pointer":
            return self.p.types[d["elem"]].get("methods", {}).get(name) if "named" in self.p.types[d["elem"]] else None
        m = d.get("methods")
        return m.get("=" + name) if isinstance(m, dict) else None

    def invoke(self, r, name, args):
        if r is None:
            raise GoPanic("invalid memory address or nil pointer dereference")
        if isinstance(r, Native):
            return self.on_native(r, name, args)
        if isinstance(r.v, Native):
            return self.on_native(r.v, name, args)
        f = self.method(r.t, name)
        if f is None:
            self.x.missing("Go method %s of %s" % (name, r.t))
        return self.run(f, [r.v] + args)

    def on_native(self, o, name, args):
        f = getattr(o, "go_" + name, None)
        if f is None:
            self.x.missing("Go method %s of %s" % (name, type(o).__name__))
        return f(*args)

    def run(self, name, args, free=()):
        n = self.natives.get(name)
        if n is not None:
            return n(self, *args)
        f = self.p.fns.get(name)
        if f is None or not f["blocks"]:
            if name.endswith(".init"):
                return None
            if args and isinstance(args[0], Native) and ")." in name:
                return self.on_native(args[0], name.rsplit(".", 1)[1], args[1:])
            for prefix, h in self.natives.get("prefixes", ()):
                if name.startswith(prefix):
                    return h(self, name, *args)
            self.x.missing("Go function %s" % name)
        for prefix, h in self.natives.get("prefixes", ()):
            if name.startswith(prefix):
                return h(self, name, *args)
        if name not in self.used:
            self.used.add(name)
            from . import core
            core.cur().functions.add("go:" + name.replace("github.com/dask/dask-gateway/dask-gateway-proxy/", ""))
        self.depth += 1
        try:
            if self.depth > 120:
                raise GoPanic("stack overflow")
            return self.execute(f, args, free)
        finally:
            self.depth -= 1

    def execute(self, f, args, free):
        fr = dict(zip(f["params"], (copyval(a) for a in args)))
        fr.update(zip(f["free"], free))
        defers = []
        state = {"panic": None, "defers": defers}
        try:
            return self.blocks(f, fr, 0, state)
        except GoPanic as e:
            if not defers:
                raise
            state["panic"] = e
            self.run_defers(state)
            if state["panic"] is not None:
                raise state["panic"]
            if f["recover"] is not None:
                return self.blocks(f, fr, f["recover"], state)
            z = tuple(self.zero(t) for t in f["results"])
            return z[0] if len(z) == 1 else z or None

    def run_defers(self, state):
        d = state["defers"]
        while d:
            fn = d.pop()
            self.panics.append(state)
            try:
                fn()
            except GoPanic as e:
                state["panic"] = e
            finally:
                self.panics.pop()
        if state["panic"] is not None and not state.get("unwinding"):
            return

    def blocks(self, f, fr, b, state):
        blocks = f["blocks"]
        prev = None
        while True:
            blk = blocks[b]
            nxt = None
            phis = []
            for i in blk["instrs"]:
                op = i["op"]
                if op == "Phi":
                    phis.append((i["name"], self.val(fr, i["edges"][blk["preds"].index(prev)])))
                    continue
                if phis:
                    fr.update(phis)
                    phis = []
                self.steps += 1
                if self.steps > self.max_steps:
                    self.x.check(False, "it ends")
                    self.x.stop()
                if op == "Jump":
                    nxt = blk["succs"][0]
                elif op == "If":
                    nxt = blk["succs"][0 if bool(self.val(fr, i["x"])) else 1]
                elif op == "Return":
                    r = tuple(copyval(self.val(fr, o)) for o in i["results"])
                    return r[0] if len(r) == 1 else (r or None)
                elif op == "RunDefers":
                    self.run_defers(state)
                    if state["panic"] is not None:
                        e, state["panic"] = state["panic"], None
                        raise e
                elif op == "Defer":
                    state["defers"].append(self.prepared(fr, i["call"]))
                elif op == "Panic":
                    raise GoPanic(self.val(fr, i["x"]))
                else:
                    r = getattr(self, "i_" + op)(fr, i)
                    if "name" in i:
                        fr[i["name"]] = r
            if phis:
                fr.update(phis)
            if nxt is None:
                self.x.missing("Go control flow in %s" % f["name"])
            prev, b = b, nxt

    # ---------------------------------------------------------- instructions
    def i_Alloc(self, fr, i):
        return Cell(self.zero(self.p.types[i["type"]]["elem"]))

    def i_Call(self, fr, i):
        return self.call(fr, i["call"])

    def i_Go(self, fr, i):
        self.pending.append(self.prepared(fr, i["call"]))

    def run_pending(self):
        """runs the other goroutines until none can go on"""
        me = Routine.current
        if me is not None:
            # a goroutine leaves that to the main one
            self.waiting.append((me, lambda: True))
            return self.leave(me)
        while True:
            go = None
            for k, (r, ready) in enumerate(self.waiting):
                if ready():
                    go = r
                    del self.waiting[k]
                    break
            if go is None and self.pending:
                go = Routine(self.pending.pop(0))
            if go is None:
                return
            d, p = self.depth, self.panics
            self.depth, self.panics = 0, []
            try:
                go.resume()
            finally:
                self.depth, self.panics = d, p

    def leave(self, me):
        d, p = self.depth, self.panics
        me.leave()
        self.depth, self.panics = d, p

    def block(self, ready, what):
        """waits until ready()"""
        if ready():
            return
        me = Routine.current
        if me is not None:
            self.waiting.append((me, ready))
            self.leave(me)
            return
        self.run_pending()
        if not ready():
            raise Blocked(what)

    def i_BinOp(self, fr, i):
        a, b, t = self.val(fr, i["x"]), self.val(fr, i["y"]), i["tok"]
        if t == "==":
            return self.eq(a, b)
        if t == "!=":
            r = self.eq(a, b)
            return self.neg(r) if self.is_sym(r) else not r
        basic = self.p.basic(i["xtype"])
        if t in ("<", "<=", ">", ">="):
            return {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[t](a, b)
        if t == "+":
            return wrap(a + b, basic)
        if t == "-":
            return wrap(a - b, basic)
        if t == "*":
            return wrap(a * b, basic)
        if t in ("/", "%"):
            if basic.startswith("float"):
                return a / b
            if not self.is_sym(b) and b == 0:
                raise GoPanic("integer divide by zero")
            if self.is_sym(a) or self.is_sym(b):
                if not bool(a >= 0) or not bool(b > 0):
                    self.x.missing("Go division of a negative symbolic integer")
                return a // b if t == "/" else a % b
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return wrap(q if t == "/" else a - q * b, basic)
        if self.is_sym(a) and t in ("<<", ">>") and not self.is_sym(b):
            return a * (1 << b) if t == "<<" else a // (1 << b)
        if t == "|" and (self.is_sym(a) or self.is_sym(b)):
            return self.bit_or(a, b, i)
        if t == "&" and self.is_sym(a) and not self.is_sym(b) and b & (b + 1) == 0:
            return a % (b + 1)
        if self.is_sym(a) or self.is_sym(b):
            a, b = operator.index(a), operator.index(b)
        if t in ("<<", ">>"):
            return wrap(a << b if t == "<<" else a >> b, basic)
        if t == "&":
            return wrap(a & b, basic)
        if t == "|":
            return wrap(a | b, basic)
        if t == "^":
            return wrap(a ^ b, basic)
        if t == "&^":
            return wrap(a & ~b, basic)
        self.x.missing("Go operator %s" % t)

    def bit_or(self, a, b, i):
        # disjoint bits: a multiple of 256 and a byte
        hi, lo = a, b
        if bool(lo >= 0) and bool(lo < 256) and bool(hi % 256 == 0):
            return hi + lo
        self.x.missing("Go | of symbolic integers")

    def i_UnOp(self, fr, i):
        t = i["tok"]
        v = self.val(fr, i["x"])
        if t == "*":
            return copyval(self.nil(v).get())
        if t == "!":
            return self.neg(v) if self.is_sym(v) else not v
        if t == "-":
            return wrap(-v, self.p.basic(i["type"]))
        if t == "^":
            return wrap(~v, self.p.basic(i["type"]))
        if t == "<-":
            return self.receive(v, i)
        self.x.missing("Go operator %s" % t)

    def receive(self, c, i):
        if c is None:
            raise Blocked("receive")
        self.block(lambda: c.q or c.closed, "receive")
        if not c.q:
            if c.closed:
                z = self.zero(i["type"] if not i["ok"] else self.p.types[i["type"]]["elems"][0])
                return (z, False) if i["ok"] else z
        v = c.q.pop(0)
        return (v, True) if i["ok"] else v

    def i_Send(self, fr, i):
        self.nil(self.val(fr, i["x"])).q.append(self.val(fr, i["y"]))

    def i_ChangeInterface(self, fr, i):
        return self.val(fr, i["x"])

    def i_ChangeType(self, fr, i):
        v = self.val(fr, i["x"])
        if type(v) is Struct:
            return Struct(i["type"], v.v)
        return v

    def i_Convert(self, fr, i):
        v = self.val(fr, i["x"])
        a, b = self.p.under(i["xtype"]), self.p.under(i["type"])
        fb, tb = a.get("basic", "").replace("untyped ", ""), b.get("basic", "").replace("untyped ", "")
        if tb == "string":
            if a.get("kind") == "slice":
                if self.p.basic(a["elem"]) in ("uint8", "byte"):
                    return self.to_string(v)
                self.x.missing("Go conversion of runes")
            if fb == "string":
                return v
            if self.is_sym(v):
                return self.V.SymStr.mk([self.code(v)])
            return go_text(chr(v))
        if fb == "string" and b.get("kind") == "slice":
            if self.p.basic(b["elem"]) in ("uint8", "byte"):
                return self.to_bytes(v)
            self.x.missing("Go conversion to runes")
        if tb.startswith("float"):
            return float(v) if not self.is_sym(v) else self.V.SymReal(v.e) if hasattr(v, "e") else v
        if fb.startswith("float"):
            return wrap(int(v), tb)
        if tb in BITS or tb in UBITS:
            return wrap(v, tb)
        return v

    i_MultiConvert = i_Convert

    def i_Extract(self, fr, i):
        return fr[i["x"]][i["index"]]

    def i_Field(self, fr, i):
        return copyval(self.val(fr, i["x"]).v[i["index"]])

    def i_FieldAddr(self, fr, i):
        p = self.nil(self.val(fr, i["x"]))
        if isinstance(p, Native):
            return p        # an embedded part of it
        return SlotPtr(p.get().v, i["index"])

    def index(self, v, n):
        if self.is_sym(v):
            if not bool(self.V.land(v >= 0, v < n)):
                raise GoPanic("index out of range")
            v = operator.index(v)
        if not 0 <= v < n:
            raise GoPanic("index out of range [%d] with length %d" % (v, n))
        return v

    def i_Index(self, fr, i):
        o = self.val(fr, i["x"])
        if type(o) is Arr:
            return copyval(o.v[self.index(self.val(fr, i["y"]), len(o.v))])
        return self.byte_at(o, self.index(self.val(fr, i["y"]), len(o)))

    def i_IndexAddr(self, fr, i):
        o = self.val(fr, i["x"])
        k = self.val(fr, i["y"])
        if self.p.under(i["xtype"])["kind"] == "pointer":
            a = self.nil(o).get()
            return SlotPtr(a.v, self.index(k, len(a.v)))
        if o is None:
            self.index(k, 0)
        return SlotPtr(o.a, o.off + self.index(k, o.n))

    def i_Lookup(self, fr, i):
        m, k = self.val(fr, i["x"]), self.val(fr, i["y"])
        d = self.p.under(i["xtype"])
        if d.get("kind") == "map":
            it = self.mfind(m, k) if m is not None else None
            v = copyval(it[1]) if it is not None else self.zero(d["elem"])
            return (v, it is not None) if i["ok"] else v
        return self.byte_at(m, self.index(k, len(m)))

    def i_MakeChan(self, fr, i):
        return Chan()

    def i_MakeClosure(self, fr, i):
        return Func(i["x"]["func"], [self.val(fr, a) for a in i["args"]])

    def i_MakeInterface(self, fr, i):
        return Iface(i["xtype"], copyval(self.val(fr, i["x"])))

    def i_MakeMap(self, fr, i):
        return GoMap()

    def i_MakeSlice(self, fr, i):
        n, c = operator.index(self.val(fr, i["x"])), operator.index(self.val(fr, i["y"]))
        e = self.p.under(i["type"])["elem"]
        z = self.zero(e)
        a = [z] * c if type(z) in (int, str, bool, type(None)) else [self.zero(e) for _ in range(c)]
        return Slice(a, 0, n, c)

    def i_MapUpdate(self, fr, i):
        self.mset(self.val(fr, i["map"] if "map" in i else i["x"]), copyval(self.val(fr, i["key"])), copyval(self.val(fr, i["value"])))

    def i_Range(self, fr, i):
        v = self.val(fr, i["x"])
        if type(v) is GoMap or v is None:
            return iter([(it[0], it[1]) for it in (v.items if v is not None else ())])
        return iter([(k, self.byte_at(v, k)) for k in range(len(v))])

    def i_Next(self, fr, i):
        for k, v in fr[i["x"]]:
            if i["string"] and type(v) is int and v > 127:
                self.x.missing("Go iteration over a non-ASCII string")
            return (True, k, copyval(v))
        z = self.p.types[i["type"]]["elems"]
        return (False, self.zero(z[1]) if z[1] in self.p.types and z[1] != "invalid type" else None, self.zero(z[2]) if z[2] in self.p.types and z[2] != "invalid type" else None)

    def i_Select(self, fr, i):
        self.x.missing("Go select")

    def i_Slice(self, fr, i):
        o = self.val(fr, i["x"])
        lo, hi, mx = (None if i[k] is None else self.val(fr, i[k]) for k in ("low", "high", "max"))
        lo = 0 if lo is None else operator.index(lo)
        d = self.p.under(i["xtype"])
        if d.get("basic", "").endswith("string"):
            n = len(o)
            hi = n if hi is None else operator.index(hi)
            if not 0 <= lo <= hi <= n:
                raise GoPanic("slice bounds out of range [%d:%d] with length %d" % (lo, hi, n))
            return o[lo:hi]
        if d["kind"] == "pointer":
            a = self.nil(o).get()
            o = Slice(a.v, 0, len(a.v), len(a.v))
        if o is None:
            if lo or hi:
                raise GoPanic("slice bounds out of range")
            return None
        hi = o.n if hi is None else operator.index(hi)
        mx = o.cap if mx is None else operator.index(mx)
        if not 0 <= lo <= hi <= mx <= o.cap:
            raise GoPanic("slice bounds out of range [%d:%d] with capacity %d" % (lo, hi, o.cap))
        return Slice(o.a, o.off + lo, hi - lo, mx - lo)

    def i_Store(self, fr, i):
        self.nil(self.val(fr, i["addr"])).set(copyval(self.val(fr, i["value"])))

    def i_TypeAssert(self, fr, i):
        v, t = self.val(fr, i["x"]), i["asserted"]
        ok, r = self.asserted(v, t)
        if i["ok"]:
            return (r if ok else self.zero(t), ok)
        if not ok:
            raise GoPanic("interface conversion: %s is not %s" % (v.t if type(v) is Iface else "nil", t))
        return r

    def asserted(self, v, t):
        if v is None:
            return False, None
        d = self.p.under(t)
        if d.get("kind") == "interface":
            if isinstance(v, Native) or isinstance(v.v, Native) and v.t not in self.p.types:
                o = v if isinstance(v, Native) else v.v
                return all(hasattr(o, "go_" + m) for m in d["methods"]), v
            return all(self.method(v.t, m) is not None for m in d["methods"]), v
        return v.t == t, v.v

    # ---------------------------------------------------------- builtins
    def builtin(self, name, a):
        if name == "len":
            v = a[0]
            if v is None:
                return 0
            if type(v) is Slice:
                return v.n
            if type(v) is GoMap:
                return len(v.items)
            if type(v) is Chan:
                return len(v.q)
            if type(v) is Arr:
                return len(v.v)
            if hasattr(v, "get"):
                return len(v.get().v)
            return len(v)
        if name == "cap":
            return 0 if a[0] is None else a[0].cap
        if name == "append":
            s, t = a
            add = [] if t is None else (t.items() if type(t) is Slice else self.to_bytes(t).items())
            if s is None:
                if not add:
                    return None
                s = Slice([], 0, 0, 0)
            n = s.n + len(add)
            if n <= s.cap:
                s.a[s.off + s.n:s.off + n] = [copyval(i) for i in add]
                return Slice(s.a, s.off, n, s.cap)
            r = s.items() + [copyval(i) for i in add]
            return Slice(r, 0, n, n)
        if name == "copy":
            d, s = a
            if d is None or s is None:
                return 0
            src = s.items() if type(s) is Slice else self.to_bytes(s).items()
            n = min(d.n, len(src))
            d.a[d.off:d.off + n] = [copyval(i) for i in src[:n]]
            return n
        if name == "delete":
            return self.mdel(a[0], a[1])
        if name == "close":
            a[0].closed = True
            return None
        if name in ("min", "max"):
            r = a[0]
            for v in a[1:]:
                if bool(v < r if name == "min" else v > r):
                    r = v
            return r
        if name == "recover":
            st = self.panics
            if st and st[-1]["panic"] is not None:
                e = st[-1]["panic"]
                st[-1]["panic"] = None
                return e.value if type(e.value) is Iface else Iface("string", str(e.value))
            return None
        if name == "clear":
            if type(a[0]) is GoMap:
                a[0].items = []
                return None
        if name in ("print", "println"):
            return None
        if name == "ssa:wrapnilchk":
            return self.nil(a[0])
        if name == "SliceData" or name == "StringData":
            return a[0]
        if name == "String":
            s = a[0]
            return "" if s is None else self.to_string(Slice(s.a, s.off, operator.index(a[1]), s.cap)) if type(s) is Slice else s[:operator.index(a[1])]
        self.x.missing("Go builtin %s" % name)


# intrinsics written in assembly or with unsafe tricks
def index_byte_string(g, s, c):
    k = g.code(c)
    for i in range(len(s)):
        ch = g.V.SymSeq.codes(s)[i] if False else (ord(s[i]) if type(s) is str else s.c[i])
        if g.V.cbranch(g.V.ceq(ch, k)):
            return i
    return -1


def index_string(g, s, t):
    for i in range(len(s) - len(t) + 1):
        if bool(s[i:i + len(t)] == t):
            return i
    return -1


def index_byte(g, b, c):
    for i, v in enumerate(b.items() if b is not None else ()):
        if bool(v == c):
            return i
    return -1


def count_string(g, s, c):
    return sum(1 for i in range(len(s)) if bool(g.byte_at(s, i) == c))


def equal_bytes(g, a, b):
    a, b = (v.items() if v is not None else [] for v in (a, b))
    return len(a) == len(b) and all(bool(p == q) for p, q in zip(a, b))


def index_rune(g, s, r):
    if g.is_sym(r) or r > 127:
        g.x.missing("Go IndexRune of a non-ASCII rune")
    return index_byte_string(g, s, r)


INTRINSICS = {
    "internal/bytealg.IndexByteString": index_byte_string,
    "internal/bytealg.IndexString": index_string,
    "internal/bytealg.IndexByte": index_byte,
    "internal/bytealg.CountString": count_string,
    "internal/bytealg.Equal": equal_bytes,
    "bytes.Equal": equal_bytes,
    "strings.IndexRune": index_rune,
    "strings.Index": index_string,
    "strings.HasPrefix": lambda g, s, p: len(s) >= len(p) and s[:len(p)] == p,
    "strings.HasSuffix": lambda g, s, p: len(s) >= len(p) and s[len(s) - len(p):] == p,
    "internal/abi.NoEscape": lambda g, p: p,
    "strings.LastIndexByte": lambda g, s, c: max([i for i in range(len(s)) if bool(g.byte_at(s, i) == c)], default=-1),
}
