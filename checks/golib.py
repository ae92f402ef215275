"""The Go proxy for the checks of C31-C34: its SSA form executed symbolically, and a driver that runs the compiled code on replay."""
import atexit
import json
import operator
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time

from symx import gossa
from symx.common import REPO, VERIF

PROXY = os.path.join(REPO, "dask-gateway-server/dask-gateway-proxy")
BASE = "github.com/dask/dask-gateway/dask-gateway-proxy/"
ROUTER = BASE + "pkg/router"
SNI = BASE + "pkg/sni"
LOGGING = BASE + "internal/logging"
MAIN = BASE + "cmd/dask-gateway-proxy"
STOP = ["net/http.*", "net.*", "crypto/tls.*", "encoding/json.*", "fmt.*", "log.*", "time.*", "os.*", "reflect.*", "sync.*", "sync/atomic.*", "context.*",
        "net/http/httputil.*", "flag.*", "runtime.*", "internal/poll.*", "internal/godebug.*", "internal/sync.*", "unique.*", "net/netip.*", "internal/bisect.*", "weak.*",
        "net/textproto.*", "mime/multipart.*", "internal/reflectlite.*", "strconv.Quote"]

PROGRAM = None


def preload():
    """prints the SSA form of the current source"""
    global PROGRAM
    PROGRAM = gossa.Program(gossa.dump(["./cmd/...", "./pkg/...", "./internal/..."], stop=STOP))


def program():
    return PROGRAM


# ---------------------------------------------------------------- the compiled code
DRIVER = None


class Driver:
    """the compiled proxy with a driver in its main package that answers requests"""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="godriver-")
        atexit.register(self.close)
        overlay = {os.path.join(PROXY, "cmd/dask-gateway-proxy/zz_verif_%s.go" % n): os.path.join(VERIF, "godriver", n + ".go") for n in ("driver", "proxy", "zz")}
        f = os.path.join(self.d, "overlay.json")
        json.dump({"Replace": overlay}, open(f, "w"))
        exe = os.path.join(self.d, "driver")
        p = subprocess.run(["go", "build", "-overlay", f, "-o", exe, "./cmd/dask-gateway-proxy"], cwd=PROXY, env=gossa.goenv(gossa.warm_cache(self.d)), capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("the driver does not build:\n" + p.stderr[-3000:])
        shutil.rmtree(os.path.join(self.d, "gocache"), ignore_errors=True)
        self.exe = exe
        self.p = None

    def start(self):
        env = dict(os.environ, VERIF_DRIVER="1")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(self.d, "stderr"), "ab"), env=env)

    def ask(self, **req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            self.p.wait()
            self.p = None
            return {"crash": open(os.path.join(self.d, "stderr"), errors="replace").read()[-2000:]}
        return json.loads(line)

    def restart(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        if self.p is not None:
            self.p.kill()
        shutil.rmtree(self.d, ignore_errors=True)


def driver():
    global DRIVER
    if DRIVER is None:
        DRIVER = Driver()
    return DRIVER


# ---------------------------------------------------------------- models
class ScriptEnd(Exception):
    """the scripted world has nothing more to offer"""


def go_error(text):
    e = gossa.Native()
    e.go_Error = lambda: text
    e.text = text
    return gossa.Iface("native error", e)


def plain(g, v):
    """the Go value a formatting verb was given"""
    v = v.v if isinstance(v, gossa.Iface) else v
    return v


def sprintf(g, fmt, args=None):
    """%s, %d, %v, %q-free formatting of text and numbers"""
    out, k = "", 0
    vals = [plain(g, a) for a in (args.items() if args is not None else [])]
    if type(fmt) is not str:
        g.x.missing("Go format that is not constant")
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out, i = out + c, i + 1
            continue
        verb = fmt[i + 1:i + 2]
        i += 2
        if verb == "%":
            out = out + "%"
            continue
        if verb not in ("s", "d", "v") or k >= len(vals):
            g.x.missing("Go format %s" % fmt)
        v = vals[k]
        k += 1
        if type(v) is int:
            out = out + str(v)
        elif isinstance(v, str):
            out = out + v
        else:
            g.x.missing("Go formatting of %r" % type(v))
    return out


def errorf(g, fmt, args=None):
    e = go_error("formatted")
    e.v.wraps = [a for a in (args.items() if args is not None else []) if isinstance(a, gossa.Iface)] if type(fmt) is str and "%w" in fmt else []
    return e


def errors_is(g, a, b):
    if a is None or b is None:
        return a is b
    if bool(g.eq(a, b)):
        return True
    v = a.v if isinstance(a, gossa.Iface) else a
    return any(errors_is(g, w, b) for w in getattr(v, "wraps", ()))


class Locks:
    """mutexes of one run; goroutines run one after the other, so a lock that is not free never becomes free"""
    def __init__(self, x):
        self.x, self.state, self.groups = x, {}, {}

    def key(self, p):
        return (id(p.o), p.i) if type(p) is gossa.SlotPtr else id(p)

    def take(self, p, write):
        n = self.state.get(self.key(p), 0)
        if n < 0 or (write and n > 0):
            raise gossa.Blocked("lock")
        self.state[self.key(p)] = -1 if write else n + 1

    def release(self, p, write):
        n = self.state.get(self.key(p), 0)
        if (n >= 0) if write else (n <= 0):
            raise gossa.GoPanic("sync: unlock of unlocked mutex")
        self.state[self.key(p)] = 0 if write else n - 1

    def held(self):
        return any(self.state.values())


def lock_natives():
    n = {}
    for t, ops in (("(*sync.RWMutex)", (("Lock", 1, True), ("Unlock", 0, True), ("RLock", 1, False), ("RUnlock", 0, False))), ("(*sync.Mutex)", (("Lock", 1, True), ("Unlock", 0, True)))):
        for name, take, write in ops:
            n["%s.%s" % (t, name)] = lambda g, p, take=take, write=write: g.locks.take(p, write) if take else g.locks.release(p, write)
    return n


class Conn(gossa.Native):
    """a TCP connection: what the peer sends, piece by piece, and what the peer receives"""
    def __init__(self, g, name, chunks=(), end="eof", after=0, late=None):
        # late: how many of the last pieces the peer only sends when it has seen the end of what it receives
        self.g, self.name, self.end, self.after, self.late = g, name, end, after, late
        self.chunks = [list(c) for c in chunks if len(c)]
        self.out = []
        self.closed = self.no_read = self.no_write = False

    def ready(self):
        """is there something to read (or an end)? a peer that waits ends when it has seen the end of what it receives"""
        if self.no_read or self.closed:
            return True
        if self.no_write:
            return True
        if len(self.out) < self.after:
            return False
        return len(self.chunks) > (self.late or 0) or not self.chunks and self.end != "wait"

    def go_Read(self, p):
        if self.closed:
            return 0, go_error("use of closed network connection")
        if self.no_read:
            return 0, self.g.glob("io.EOF").v
        if p is None or p.n == 0:
            return 0, None
        if not self.ready():
            self.g.block(self.ready, "read")
            if self.no_read or self.closed:
                return 0, self.g.glob("io.EOF").v
        if not self.chunks:
            if self.end == "eof" or self.end == "wait" and self.no_write:
                return 0, self.g.glob("io.EOF").v
            if self.end == "error":
                return 0, go_error("connection reset by peer")
            raise gossa.Blocked("read")
        c = self.chunks[0]
        n = min(p.n, len(c))
        p.a[p.off:p.off + n] = c[:n]
        if n == len(c):
            self.chunks.pop(0)
        else:
            self.chunks[0] = c[n:]
        return n, None

    def go_Write(self, p):
        if self.closed or self.no_write:
            return 0, go_error("broken pipe")
        items = p.items() if p is not None else []
        self.out.extend(items)
        return len(items), None

    def go_Close(self):
        if self.closed:
            return go_error("use of closed network connection")
        self.closed = True

    def go_CloseRead(self):
        self.no_read = True

    def go_CloseWrite(self):
        self.no_write = True

    def go_RemoteAddr(self):
        return gossa.Iface("native addr", self)

    go_LocalAddr = go_RemoteAddr

    def nothing(self, *a):
        return None

    go_SetDeadline = go_SetReadDeadline = go_SetWriteDeadline = go_SetKeepAlive = go_SetKeepAlivePeriod = go_SetNoDelay = go_SetLinger = nothing

    def go_String(self):
        return self.name

    def go_Network(self):
        return "tcp"

    def go_ReadFrom(self, r):
        n = 0
        while True:
            b = gossa.Slice([0] * 32768)
            k, err = self.g.invoke(r, "Read", [b])
            if k:
                _, e = self.go_Write(gossa.Slice(b.a, 0, k))
                if e is not None:
                    return n, e
                n += k
            if err is not None:
                return n, None if self.g.eq(err, self.g.glob("io.EOF").v) else err

    def go_WriteTo(self, w):
        n = 0
        while True:
            b = gossa.Slice([0] * 32768)
            k, err = self.go_Read(b)
            if k:
                _, e = self.g.invoke(w, "Write", [gossa.Slice(b.a, 0, k)])
                n += k
                if e is not None:
                    return n, e
            if err is not None:
                return n, None if self.g.eq(err, self.g.glob("io.EOF").v) else err


def conn_value(c):
    return gossa.Iface("*net.TCPConn", c)


# ---- TLS hellos
def hello(name, extra=0):
    """the bytes of a TLS hello record; name is a list of bytes or None"""
    ext = []
    if name is not None:
        n = len(name)
        ext += [0, 0, (n + 5) >> 8, (n + 5) & 255, (n + 3) >> 8, (n + 3) & 255, 0, n >> 8, n & 255] + list(name)
    ext += [0, 43, 0, 3, 2, 3, 4]
    if extra:
        ext = [0, 21, extra >> 8, extra & 255] + [0] * extra + ext      # padding
    body = [3, 3] + list(range(32)) + [0] + [0, 2, 0x13, 1] + [1, 0] + [len(ext) >> 8, len(ext) & 255] + ext
    msg = [1, 0, len(body) >> 8, len(body) & 255] + body
    return [0x16, 3, 1, len(msg) >> 8, len(msg) & 255] + msg


def parse_hello(x, b):
    """the server name in a complete record, None if it is not a hello (what crypto/tls does)"""
    if len(b) < 9 + 2 + 32 + 1 + 4 + 2:
        return None
    def num(i, n):
        v = 0
        for k in b[i:i + n]:
            if type(k) is not int:
                x.missing("a hello whose structure is symbolic")
            v = v * 256 + k
        return v
    if len(b) < 9 or num(0, 1) != 0x16 or num(1, 1) != 3 or num(5, 1) != 1 or num(6, 3) + 4 > len(b) - 5:
        return None
    i = 9 + 2 + 32
    i += 1 + num(i, 1)
    i += 2 + num(i, 2)
    i += 1 + num(i, 1)
    end = i + 2 + num(i, 2)
    if end != len(b):
        return None
    i += 2
    name = []
    while i < end:
        t, n = num(i, 2), num(i + 2, 2)
        if t == 0:
            k = num(i + 7, 2)
            name = b[i + 9:i + 9 + k]
        i += 4 + n
    return name


class TlsServer(gossa.Native):
    def __init__(self, g, conn, config):
        self.g, self.conn, self.config = g, conn, config

    def go_Handshake(self):
        g, data = self.g, []
        need = 5
        while len(data) < need:
            b = gossa.Slice([0] * 512)
            n, err = g.invoke(self.conn, "Read", [b])
            data += b.a[:n]
            if len(data) >= 5 and need == 5:
                need = 5 + operator.index(data[3]) * 256 + operator.index(data[4])
            if err is not None and len(data) < need:
                return err
        name = parse_hello(g.x, data[:need])
        if name is None:
            return go_error("tls: unexpected message")
        f = g.field(self.config, "GetConfigForClient").get()
        if f is not None:
            g.apply(f, [g.new("crypto/tls.ClientHelloInfo", ServerName=g.to_string(gossa.Slice(name)))])
        g.invoke(self.conn, "Write", [gossa.Slice([21, 3, 3, 0, 2, 2, 80])])
        return go_error("tls: no certificates configured")

    def go_HandshakeContext(self, ctx):
        return self.go_Handshake()


# ---- HTTP
class Writer(gossa.Native):
    """http.ResponseWriter"""
    def __init__(self):
        self.status, self.header = None, gossa.GoMap()

    def go_Header(self):
        return self.header

    def go_WriteHeader(self, n):
        if self.status is None:
            self.status = n

    def go_Write(self, p):
        if self.status is None:
            self.status = 200
        return (p.n if p is not None else 0), None


def http_error(g, w, text, status):
    g.invoke(w, "WriteHeader", [status])


def header_set(g, h, k, v):
    g.mset(h, k, gossa.Slice([v]))


def header_add(g, h, k, v):
    old, ok = g.mget(h, k)
    g.mset(h, k, gossa.Slice((old.items() if ok and old is not None else []) + [v]))


def header_get(g, h, k):
    old, ok = g.mget(h, k)
    return old.items()[0] if ok and old is not None and old.n else ""


def fields(g, v):
    """a struct as a dict"""
    v = v.get() if hasattr(v, "get") else v
    return {f["name"]: k for f, k in zip(g.p.under(v.t)["fields"], v.v)}


def reverse_proxy(g, rp, w, req):
    f = fields(g, rp)
    if f["Director"] is None or f["Rewrite"] is not None or f["ModifyResponse"] is not None:
        g.x.missing("a reverse proxy set up another way")
    out = gossa.Cell(gossa.copyval(req.get()))
    h = gossa.GoMap()
    old = fields(g, req)["Header"]
    h.items = [[k, v] for k, v in old.items] if old is not None else []
    g.field(out, "Header").set(h)
    g.field(out, "URL").set(gossa.Cell(gossa.copyval(fields(g, req)["URL"].get())))
    g.apply(f["Director"], [out])
    err = g.world.forward(g, out)
    if err is not None:
        if f["ErrorHandler"] is None:
            g.invoke(w, "WriteHeader", [502])
        else:
            g.apply(f["ErrorHandler"], [w, out, err])
    else:
        g.invoke(w, "WriteHeader", [200])


def new_request(g, method, url, body):
    r = g.new("net/http.Request", Method=method)
    g.field(r, "Header").set(gossa.GoMap())
    g.world.addresses.append((r, url))
    return r, None


def client_do(g, client, req):
    return g.world.request(g, fields(g, client), req)


class Decoder(gossa.Native):
    def __init__(self, g, body):
        self.g, self.body = g, body

    def go_Decode(self, v):
        data = []
        while True:
            b = gossa.Slice([0] * 4096)
            n, err = self.g.invoke(self.body, "Read", [b])
            data += b.a[:n]
            if err is not None:
                if not self.g.eq(err, self.g.glob("io.EOF").v):
                    return err
                break
        return json_into(self.g, bytes(data), v)


def json_into(g, data, v):
    """decodes JSON text (marked parts of it stand for symbolic values) into a Go value"""
    try:
        o = json.loads(data)
    except ValueError:
        return go_error("invalid character")
    t = v.t
    p = v.v
    return decode(g, o, g.p.types[t]["elem"], p)


def decode(g, o, t, p):
    d = g.p.under(t)
    if o is None:
        return None
    if d.get("kind") == "struct":
        if not isinstance(o, dict):
            return go_error("json: cannot unmarshal into struct")
        s = p.get()
        for k, f in enumerate(d["fields"]):
            if not f["exported"]:
                continue
            name = f["name"]
            if f["tag"].startswith('json:"'):
                name = f["tag"][6:].split('"')[0].split(",")[0] or name
            for key, val in o.items():
                if key.lower() == name.lower():
                    err = decode(g, val, f["type"], gossa.SlotPtr(s.v, k))
                    if err is not None:
                        return err
        return None
    if d.get("kind") == "slice":
        if not isinstance(o, list):
            return go_error("json: cannot unmarshal into slice")
        a = [g.zero(d["elem"]) for _ in o]
        for k, v in enumerate(o):
            err = decode(g, v, d["elem"], gossa.SlotPtr(a, k))
            if err is not None:
                return err
        p.set(gossa.Slice(a))
        return None
    b = d.get("basic")
    if b == "string":
        if not isinstance(o, str):
            return go_error("json: cannot unmarshal into string")
        p.set(g.world.symbol(o) if o.startswith("\x00") else gossa.go_text(o))
        return None
    if b in gossa.BITS or b in gossa.UBITS:
        if type(o) is not int or o < 0 and b in gossa.UBITS:
            return go_error("json: cannot unmarshal into number")
        p.set(o)
        return None
    g.x.missing("JSON decoding into %s" % t)


def unmarshal(g, data, v):
    return json_into(g, bytes(data.items() if data is not None else []), v)


def dial(g, network, address, *timeout):
    return g.world.dial(g, address)


def sleep(g, d):
    g.world.slept(d)


def group_add(g, wg, n):
    g.locks.groups[g.locks.key(wg)] = g.locks.groups.get(g.locks.key(wg), 0) + n


def group_wait(g, wg):
    if g.world.second_first and len(g.pending) > 1:
        g.pending.append(g.pending.pop(0))
    g.block(lambda: g.locks.groups.get(g.locks.key(wg), 0) <= 0, "wait group")


class Setting(gossa.Native):
    """a GODEBUG setting that is not set"""
    def go_Value(self):
        return ""

    def go_IncNonDefault(self):
        return None

    def go_Name(self):
        return ""


NATIVES = dict(gossa.INTRINSICS)
NATIVES.update(lock_natives())
NATIVES["internal/godebug.New"] = lambda g, n: Setting()
NATIVES.update({
    "(*sync.WaitGroup).Add": group_add, "(*sync.WaitGroup).Done": lambda g, wg: group_add(g, wg, -1), "(*sync.WaitGroup).Wait": group_wait,
    "net.DialTimeout": dial, "net.Dial": dial, "time.Sleep": sleep,
    "crypto/tls.Server": lambda g, conn, config: TlsServer(g, conn, config),
    "net/http.Error": http_error, "net/http.NewRequest": new_request, "(*net/http.Client).Do": client_do,
    "(net/http.Header).Set": header_set, "(net/http.Header).Add": header_add, "(net/http.Header).Get": header_get, "(net/http.Header).Del": lambda g, h, k: g.mdel(h, k),
    "(*net/http/httputil.ReverseProxy).ServeHTTP": reverse_proxy,
    "encoding/json.NewDecoder": lambda g, r: Decoder(g, r), "encoding/json.Unmarshal": unmarshal,
    "(time.Duration).Seconds": lambda g, d: d / 1e9,
    "errors.Is": errors_is, "fmt.Errorf": errorf, "fmt.Sprintf": sprintf,
    "net/http.NewRequestWithContext": lambda g, ctx, method, url, body: new_request(g, method, url, body),
    "context.Background": lambda g: gossa.Iface("native context", gossa.Native()),
})
NATIVES["prefixes"] = [("(*%s.Logger)." % LOGGING, lambda g, name, *a: None)]


def interp(x, world=None, **more):
    n = dict(NATIVES)
    n.update(more)
    g = gossa.Interp(PROGRAM, x, n)
    g.locks = Locks(x)
    g.world = world
    return g


def run(x, g, what, f, *a):
    """calls into the Go code; a panic or an endless wait is a violation"""
    try:
        return f(*a)
    except gossa.GoPanic as e:
        x.check(False, "the proxy does not panic", (what, str(e.value)))
        x.stop()
    except gossa.Blocked as e:
        x.check(False, "the proxy does not wait for ever", (what, str(e)))
        x.stop()


# ---------------------------------------------------------------- the router
class Router:
    """router.Router; targets are small integers"""
    def __init__(self, x):
        self.x = x
        if x.symbolic:
            self.g = interp(x)
            self.r = self.call("NewRouter")
            self.urls = {}
        else:
            driver().ask(op="router-new")

    def call(self, name, *a):
        return run(self.x, self.g, name, self.g.run, ROUTER + "." + name, list(a))

    def method(self, name, *a):
        return run(self.x, self.g, name, self.g.run, "(*%s.Router).%s" % (ROUTER, name), [self.r] + list(a))

    def url(self, i):
        if i not in self.urls:
            self.urls[i] = self.g.new("net/url.URL", Scheme="http", Host="t%d" % i)
        return self.urls[i]

    def ask(self, **kw):
        r = driver().ask(**kw)
        self.x.check("crash" not in r, "the proxy does not panic", r.get("crash"))
        self.x.check("stuck" not in r, "the proxy does not wait for ever", r.get("stuck"))
        return r

    def put(self, path, i):
        if self.x.symbolic:
            self.method("Put", path, self.url(i))
        else:
            self.ask(op="router-put", path=path, target=i)

    def delete(self, path):
        if self.x.symbolic:
            self.method("Delete", path)
        else:
            self.ask(op="router-delete", path=path)

    def match(self, path):
        if self.x.symbolic:
            u, rest = self.method("Match", path)
            return (None if u is None else [i for i, v in self.urls.items() if v is u][0]), rest
        r = self.ask(op="router-match", path=path)
        return (r["target"] if r["found"] else None), r["rest"]

    def has_match(self, path):
        if self.x.symbolic:
            return self.method("HasMatch", path)
        return self.ask(op="router-has", path=path)["found"]


# ---------------------------------------------------------------- the proxy
class Proxy:
    """the proxy's HTTP and TLS sides; TLS targets are small integers, HTTP targets are URLs"""
    def __init__(self, x):
        self.x = x
        self.outgoing = []          # HTTP requests forwarded
        self.dialled = []
        self.sleeps = []
        self.addresses = []
        self.symbols = {}
        self.fail_transport = False
        if x.symbolic:
            self.g = interp(x, self)
            self.p = self.call("NewProxy", 1)
            self.targets = ["10.0.0.%d:8786" % i for i in range(4)]
            self.refused = set()
            self.replies, self.after, self.second_first, self.late = [], 0, False, None
        else:
            r = self.ask(op="proxy-new", level=1)
            self.targets = r["targets"]

    def call(self, name, *a):
        return run(self.x, self.g, name, self.g.run, MAIN + "." + name, list(a))

    def method(self, name, *a):
        return run(self.x, self.g, name, self.g.run, "(*%s.Proxy).%s" % (MAIN, name), [self.p] + list(a))

    def ask(self, **kw):
        r = driver().ask(**kw)
        self.x.check("crash" not in r, "the proxy does not panic", r.get("crash"))
        self.x.check("stuck" not in r, "the proxy does not wait for ever", r.get("stuck"))
        return r

    # ---- routes
    def route(self, kind, sni="", path="", target=""):
        return dict(kind=kind, sni=sni, path=path, target=target)

    def _route(self, r):
        return self.g.new(MAIN + ".Route", Kind=r["kind"], SNI=r["sni"], Path=r["path"], Target=r["target"]).v

    def load(self, routes):
        if self.x.symbolic:
            self.method("UpdateFromRoutes", gossa.Slice([self._route(r) for r in routes]))
            self.x.check(not self.g.locks.held(), "no lock is kept")
        else:
            self.ask(op="proxy-load", routes=routes)

    def events(self, events):
        """[(type, route)]"""
        if self.x.symbolic:
            ev = []
            for k, (t, r) in enumerate(events):
                e = self.g.new(MAIN + ".Event", Id=k + 1, Type=t).v
                self.g.field(e, "Route").set(self._route(r))
                ev.append(e)
            self.method("UpdateFromEvents", gossa.Slice(ev))
            self.x.check(not self.g.locks.held(), "no lock is kept")
        else:
            self.ask(op="proxy-events", events=[dict(type=t, route=r) for t, r in events])

    # ---- HTTP
    def forward(self, g, req):
        f = fields(g, req)
        u = fields(g, f["URL"])
        self.outgoing.append(dict(scheme=u["Scheme"], host=u["Host"], path=u["Path"], query=u["RawQuery"], method=f["Method"], headers={k: v.items() for k, v in f["Header"].items}))
        return go_error("connection refused") if self.fail_transport else None

    def http(self, path, query="", headers=None, method="GET"):
        """(status, forwarded request or None)"""
        headers = headers or {}
        self.outgoing = []
        if self.x.symbolic:
            g = self.g
            h = gossa.GoMap()
            h.items = [[k, gossa.Slice([v])] for k, v in headers.items()]
            req = g.new("net/http.Request", Method=method, Header=h, Host="gateway", Proto="HTTP/1.1", ProtoMajor=1, ProtoMinor=1)
            g.field(req, "URL").set(g.new("net/url.URL", Path=path, RawQuery=query))
            w = Writer()
            self.method("ServeHTTP", gossa.Iface("native writer", w), req)
            self.x.check(not g.locks.held(), "no lock is kept")
            self.x.check(len(self.outgoing) <= 1, "a request is forwarded once")
            return w.status, (self.outgoing[0] if self.outgoing else None)
        r = self.ask(op="proxy-http", path=path, query=query, headers=headers, method=method, fail=self.fail_transport)
        return r["status"], r.get("out")

    # ---- TLS
    def dial(self, g, address):
        i = [k for k, t in enumerate(self.targets) if type(address) is str and t == address]
        if not i:
            i = [k for k, t in enumerate(self.targets) if bool(address == t)]
        if not i:
            self.dialled.append((address, None))
            return None, go_error("no such host")
        c = Conn(g, "target", self.replies, "eof" if self.replies else "wait", self.after, self.late)
        if i[0] in self.refused:
            return None, go_error("connection refused")
        self.dialled.append((i[0], c))
        return conn_value(c), None

    def slept(self, d):
        self.sleeps.append(d)

    def tls(self, chunks, forwarder=False, refused=(), end="eof"):
        """one connection: (where it went: a target's number, "http" or None, the bytes that arrived there)"""
        if not self.x.symbolic:
            r = self.ask(op="proxy-tls", chunks=[list(c) for c in chunks], forwarder=forwarder, refused=list(refused), end=end)
            return r["to"], r["data"]
        g = self.g
        self.dialled, self.refused = [], set(refused)
        c = Conn(g, "client", chunks, end)
        f = None
        if forwarder:
            f = self.call("newForwarder", gossa.Iface("native listener", gossa.Native()))
        self.method("handleConnection", c, f)
        run(self.x, g, "handleConnection", g.run_pending)
        self.x.check(not g.locks.held(), "no lock is kept")
        if f is not None:
            q = fields(g, f)
            ch = [v for v in q.values() if type(v) is gossa.Chan]
            if ch and ch[0].q:
                self.x.check(not c.closed, "a connection handed on is open")
                conn, err = run(self.x, g, "Accept", g.run, "(*%s.Forwarder).Accept" % MAIN, [f])
                data = []
                while True:
                    b = gossa.Slice([0] * 64)
                    n, err = run(self.x, g, "Read", g.invoke, conn, "Read", [b])
                    data += b.a[:n]
                    if err is not None:
                        break
                self.x.check(not self.dialled, "a connection goes to one place")
                return "http", data
        self.x.check(c.closed, "a connection that is over is closed")
        if not self.dialled:
            return None, []
        self.x.check(len(self.dialled) == 1, "a connection goes to one place")
        to, conn = self.dialled[0]
        if conn is not None:
            self.x.check(conn.closed, "the connection to the target is closed in the end")
        return to, (conn.out if conn is not None else [])

    def halves(self, first, rest, reply, who, second_first):
        """a conversation in which one side ends what it sends before the other: who="client": the client sends everything and ends, and the target
        answers when it has seen that; who="target": the target answers the first part and ends, and the client sends the rest when it has seen that"""
        if not self.x.symbolic:
            r = self.ask(op="proxy-halves", first=list(first), rest=list(rest), reply=list(reply), who=who)
            return r["to"], r["data"], r["reply"]
        g = self.g
        self.dialled, self.refused, self.second_first = [], set(), second_first
        if who == "client":
            self.replies, self.after, self.late = [reply], 0, 1
            c = Conn(g, "client", [first, rest])
        else:
            self.replies, self.after, self.late = [reply], len(first), None
            c = Conn(g, "client", [first, rest], "eof", 0, 1)
        self.method("handleConnection", c, None)
        run(self.x, g, "handleConnection", g.run_pending)
        self.x.check(c.closed and all(k.closed for _, k in self.dialled), "both connections are closed in the end")
        self.late = None
        return (self.dialled[0][0], self.dialled[0][1].out, c.out) if self.dialled else (None, [], c.out)

    def talk(self, chunks, reply, second_first):
        """a whole conversation: (where it went, what arrived there, what came back); the target answers what it got and closes"""
        n = sum(len(c) for c in chunks)
        if not self.x.symbolic:
            r = self.ask(op="proxy-talk", chunks=[list(c) for c in chunks], reply=list(reply), after=n)
            return r["to"], r["data"], r["reply"]
        g = self.g
        self.dialled, self.refused, self.replies, self.after, self.second_first = [], set(), [reply], n, second_first
        c = Conn(g, "client", chunks, "wait")
        self.method("handleConnection", c, None)
        run(self.x, g, "handleConnection", g.run_pending)
        self.x.check(c.closed and all(k.closed for _, k in self.dialled), "both connections are closed in the end")
        return (self.dialled[0][0], self.dialled[0][1].out, c.out) if self.dialled else (None, [], c.out)

    def serve(self, script):
        """connections accepted one after the other: each is a list of pieces, or None when accepting fails; where each one went"""
        if not self.x.symbolic:
            return self.ask(op="proxy-serve", script=[None if s is None else [list(c) for c in s] for s in script])["to"]
        g = self.g
        left = list(script)
        conns = []

        class Listener(gossa.Native):
            def go_Accept(self):
                if not left:
                    raise ScriptEnd()
                s = left.pop(0)
                if s is None:
                    return None, go_error("too many open files")
                c = Conn(g, "client", s)
                conns.append(c)
                return conn_value(c), None

            def go_Close(self):
                return None
        self.refused, self.dialled = set(), []
        try:
            self.method("runTCP", gossa.Iface("native listener", Listener()), None)
        except ScriptEnd:
            pass
        else:
            self.x.check(False, "the proxy keeps accepting connections")
        out = []
        for go in g.pending[:]:
            self.dialled, n = [], len(g.pending)
            g.pending = [go]
            run(self.x, g, "handleConnection", g.run_pending)
            out.append(self.dialled[0][0] if self.dialled else None)
        self.x.check(all(c.closed for c in conns), "every connection is closed in the end")
        return out

    # ---- the feed
    def symbol(self, mark):
        return self.symbols[mark]

    def marked(self, v):
        """text in JSON that stands for a symbolic value"""
        if type(v) is str:
            return v
        m = "\x00%d" % len(self.symbols)
        self.symbols[m] = v
        return m

    def request(self, g, client, req):
        """a request to the gateway's API, answered by the script"""
        h = {k: v.items()[0] for k, v in fields(g, req)["Header"].items}
        self.x.check(h.get("Authorization") == "token tok", "requests to the gateway carry its token")
        self.x.check(not g.locks.held(), "no lock is kept while waiting for the gateway")
        address = [a for r, a in self.addresses if r is req][0]
        r = self.feed(address)
        if r is None:
            return None, go_error("connection refused")
        status, chunks, end = r
        resp = g.new("net/http.Response", StatusCode=status, Status="%d Status" % status, Header=gossa.GoMap())
        g.field(resp, "Body").set(gossa.Iface("native body", Body(g, chunks, end)))
        return resp, None

    def watch(self, feed, limit):
        """watchRoutes against a scripted gateway: feed(address) -> None (the connection fails) or (status, pieces, end)"""
        if self.x.symbolic:
            self.feed = feed
            try:
                self.method("watchRoutes", "http://gateway/routes", "tok", limit)
            except ScriptEnd:
                pass
            else:
                self.x.check(False, "the proxy keeps watching")
            self.x.check(all(0 <= d <= limit for d in self.sleeps), "it never waits longer than it is told to", self.sleeps)
            return
        srv = FeedServer(self.x, feed, limit / 1e9)
        self.ask(op="proxy-watch", url="http://127.0.0.1:%d/routes" % srv.port, token="tok", limit=limit)
        srv.run()

    def over(self):
        if not self.x.symbolic:
            driver().restart()


class Body(Conn):
    def __init__(self, g, chunks, end):
        super().__init__(g, "body", chunks, end)

    def go_Read(self, p):
        if self.end == "open" and not self.chunks and not self.closed:
            raise ScriptEnd()
        return super().go_Read(p)


class FeedServer:
    """the scripted gateway on a real socket"""
    def __init__(self, x, feed, limit):
        self.x, self.feed, self.limit = x, feed, limit
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(16)
        self.port = self.s.getsockname()[1]

    def run(self):
        last = None
        kept = []
        while True:
            self.s.settimeout(self.limit + 1.5)
            try:
                c, _ = self.s.accept()
            except TimeoutError:
                self.x.check(False, "it never waits longer than it is told to")
            if last is not None:
                self.x.check(time.monotonic() - last < self.limit + 0.6, "it never waits longer than it is told to")
            c.settimeout(5)
            data = b""
            while b"\r\n\r\n" not in data:
                k = c.recv(4096)
                if not k:
                    break
                data += k
            self.x.check(b"Authorization: token tok" in data, "requests to the gateway carry its token")
            r = self.feed(data.split(b" ")[1].decode())
            if r is not None:
                status, chunks, end = r
                try:
                    c.sendall(b"HTTP/1.1 %d Status\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n" % status)
                    for k in chunks:
                        if k:
                            c.sendall(b"%x\r\n%s\r\n" % (len(k), bytes(k)))
                            time.sleep(0.002)
                    if end == "eof":
                        c.sendall(b"0\r\n\r\n")
                except OSError:
                    pass            # the proxy hung up
                if end == "open":
                    kept.append(c)
                    time.sleep(0.25)
                    self.kept = kept
                    return
            c.close()
            last = time.monotonic()
