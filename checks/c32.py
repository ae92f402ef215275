"""C32: the proxy's tables equal the routes it was told."""
import json

from golib import Proxy, hello, preload
from symx.env import unit

TECHNIQUE = "symbolic execution of the real Go proxy (its SSA form, printed from the current source) on tables and events with symbolic routes and on scripted connections to the gateway; z3"
LEVEL_NOTE = "Full tables and up to 3 events with symbolic server names and paths, every kind of invalid route and event among good ones, batches as large as the gateway keeps, and the feed loop against a scripted gateway that changes at any time and whose connections are refused, fail, are cut anywhere after a batch or in the middle of one, send garbage, or have forgotten the history (1 failure in 3 changes, 2 in one; thorough: 2 in 2, 3 in one)."
BOUNDS = "2 routes and 1-3 events per table; 3 changes over the feed with 1 failure, 1 change with 2 failures (thorough: 2 with 2, 1 with 3); batches of 10, 380 and 1000 events; names and paths of one symbolic letter"
OUTSIDE = "data races between the feed and the requests (goroutines switch at blocking points only); JSON and HTTP parsing by the Go library; waiting times beyond their limits"
ASSUMPTIONS = ["encoding/json, net/http.Client, time.Sleep and the locks do as documented (replays run the real ones)"]

SECOND = 10 ** 9


class Table:
    """what the routes should be"""
    def __init__(self, x, p):
        self.x, self.p = x, p
        self.sni, self.http = [], []

    def clear(self):
        self.sni, self.http = [], []

    def change(self, kind, r):
        x = self.x
        if kind not in ("PUT", "DELETE") or r["kind"] not in ("SNI", "PATH"):
            return
        t, key = (self.sni, r["sni"]) if r["kind"] == "SNI" else (self.http, r["path"])
        if len(key) == 0:
            return
        if kind == "PUT" and (r["target"] == "" or r["kind"] == "PATH" and not r["target"].startswith("http")):
            return
        t[:] = [(k, v) for k, v in t if not (len(k) == len(key) and x.conc(k == key))]
        if kind == "PUT":
            t.append((key, r["target"]))

    def probe_sni(self, name):
        """the target of a server name, as the proxy's connections show it"""
        x, p = self.x, self.p
        to, _ = p.tls([hello(list(b"daskgateway-") + [x.ord(name[i:i + 1]) for i in range(len(name))])])
        want = [v for k, v in self.sni if len(k) == len(name) and x.conc(k == name)]
        want = p.targets.index(want[0].replace("tls://", "")) if want else None
        x.check(to == want, "the TLS table holds the last target of every route that remains", (name, to, want))
        x.reach("a TLS route" if want is not None else "no TLS route")
        return to

    def probe_http(self, path):
        """the target of exactly this path"""
        x, p = self.x, self.p
        _, out = p.http(path)
        want = [v for k, v in self.http if len(k) == len(path) and x.conc(k == path)]
        got = out and out["scheme"] + "://" + out["host"]
        x.check(got == (want[0] if want else None), "the HTTP table holds the last target of every route that remains", (path, got, want))
        x.reach("an HTTP route" if want else "no HTTP route")
        return got


def tls_target(x, p, name):
    i = x.choice(name, [0, 1])
    return ("tls://" if i else "") + p.targets[i]


EVENTS = ["PUT", "DELETE", "put"]


@unit("TLS routes", params=[dict(load=l, events=e) for l, e in ((2, 0), (1, 1), (1, 2), (0, 3))], thorough_params=[dict(load=2, events=2), dict(load=1, events=3)], reach=["a TLS route", "no TLS route"])
def tls_routes(x, load, events):
    """a full table and events about server names"""
    p = Proxy(x)
    t = Table(x, p)
    p.load([p.route("SNI", sni="ab", target=p.targets[3])])
    routes = [p.route("SNI", sni=x.str("name%d" % k, 1, 1 if k else 0, "abc"), target=tls_target(x, p, "target%d" % k)) for k in range(load)]
    for r in routes:
        t.change("PUT", r)
    p.load(routes)
    ev = []
    for k in range(events):
        kind = x.choice("type%d" % k, EVENTS)
        r = p.route("SNI", sni=x.str("event%d" % k, 1, 1, "abc"), target=tls_target(x, p, "to%d" % k) if kind == "PUT" else "")
        t.change(kind, r)
        ev.append((kind, r))
    if events == 3:
        p.events(ev[:1])
        p.events(ev[1:])
    else:
        p.events(ev)
    x.observe("to", t.probe_sni(x.str("probe", 1, 1, "abc")))
    t.probe_sni("ab")


@unit("HTTP routes", params=[dict(load=l, events=e) for l, e in ((2, 0), (1, 1), (1, 2), (0, 3))], thorough_params=[dict(load=2, events=2), dict(load=1, events=3)], reach=["an HTTP route", "no HTTP route"])
def http_routes(x, load, events):
    """a full table and events about paths"""
    p = Proxy(x)
    t = Table(x, p)
    p.load([p.route("PATH", path="/x/y", target="http://t3")])
    routes = [p.route("PATH", path="/" + x.str("path%d" % k, 1, 1, "abc"), target=x.choice("target%d" % k, ["http://t0", "https://t1:80"])) for k in range(load)]
    for r in routes:
        t.change("PUT", r)
    p.load(routes)
    ev = []
    for k in range(events):
        kind = x.choice("type%d" % k, EVENTS)
        r = p.route("PATH", path="/" + x.str("event%d" % k, 1, 1, "abc"), target=x.choice("to%d" % k, ["http://t0", "https://t2"]) if kind == "PUT" else "")
        t.change(kind, r)
        ev.append((kind, r))
    p.events(ev)
    x.observe("to", t.probe_http("/" + x.str("probe", 1, 1, "abc")))
    t.probe_http("/x/y")


BAD = [("SNI", "", "", "tls"), ("SNI", "n", "", ""), ("PATH", "", "", "http://t1"), ("PATH", "", "/p", ""), ("PATH", "", "/p", "t1:80"), ("PATH", "", "/p", "ftp://t1"), ("PATH", "", "/p", "http://[::1"), ("PATH", "", "/p", "http://t1:port"),
       ("OTHER", "n", "/p", "http://t1"), ("", "n", "/p", "http://t1"), ("sni", "n", "/p", "tls"), ("PATH", "n", "", "http://t1"), ("SNI", "", "/p", "tls")]


@unit("invalid routes", reach=["a TLS route", "an HTTP route"])
def invalid(x):
    """a route or an event that makes no sense is refused alone"""
    p = Proxy(x)
    good = [p.route("SNI", sni="n", target=p.targets[0]), p.route("PATH", path="/p", target="http://t0")]
    k = x.choice("bad", list(range(len(BAD))))
    kind, sni, path, target = BAD[k]
    bad = p.route(kind, sni=sni, path=path, target=p.targets[1] if target == "tls" else target)
    place = x.choice("place", ["first", "between", "last", "event", "unknown event"])
    t = Table(x, p)
    for r in good:
        t.change("PUT", r)
    if place in ("first", "between", "last"):
        n = {"first": 0, "between": 1, "last": 2}[place]
        p.load(good[:n] + [bad] + good[n:])
    elif place == "event":
        p.load(good[:1])
        p.events([("PUT", bad), ("PUT", good[1])])
    else:
        p.load(good[:1])
        p.events([(x.choice("type", ["", "PATCH", "delete"]), good[0]), ("PUT", good[1])])
    x.observe("n", [t.probe_sni("n"), t.probe_http("/p")])


class Gateway:
    """the gateway's side of the feed: a log of changes, connections that fail and a history that is forgotten"""
    def __init__(self, x, p, changes, faults, names):
        self.x, self.p, self.faults, self.asked = x, p, faults, 0
        self.log = changes                  # [(type, route)]
        self.done, self.oldest = 0, 0       # changes made so far, and those no longer known
        self.names = names

    def state(self):
        t = Table(self.x, self.p)
        for k, r in self.log[:self.done]:
            t.change(k, r)
        return t

    def route_json(self, r):
        return {k: self.p.marked(v) if self.x.symbolic else v for k, v in r.items() if len(v) or k in ("kind", "target")}

    def more(self, least=0):
        """some changes are made"""
        left = len(self.log) - self.done
        n = left if not self.faults else self.x.choice("changes%d" % self.asked, list(range(left, -1, -1)))
        self.done += n

    def fault(self, what):
        if not self.faults:
            return None
        f = self.x.choice("fault%d" % self.asked, [None] + what)
        if f is not None:
            self.faults -= 1
            self.x.reach("a fault")
        return f

    def pieces(self, data):
        return [list(data)]

    def __call__(self, address):
        x = self.x
        self.asked += 1
        x.check(self.asked < 12, "the proxy gets on with the feed", self.asked)
        watch = "?watch=1&last_id=" in address
        x.check(watch or "?" not in address, "the proxy asks for the table or the changes", address)
        self.more()
        if not watch:
            f = self.fault(["refused", 500, "cut", "error"])
            if f == "refused":
                return None
            if f == 500:
                return 500, [], "eof"
            t = self.state()
            routes = [self.route_json(self.p.route("SNI", sni=k, target=v)) for k, v in t.sni] + [self.route_json(self.p.route("PATH", path=k, target=v)) for k, v in t.http]
            data = json.dumps({"routes": routes, "id": self.done}).encode()
            if f in ("cut", "error"):
                return 200, [data[:len(data) - 3]], "eof" if f == "cut" else "error"
            return 200, [data], "eof"
        last = int(address.split("=")[-1])
        x.check(last <= self.done, "the proxy asks for changes after one it was told of", (last, self.done))
        f = self.fault(["refused", 503, 410, "closed", "cut", "error", "garbage", "forgotten"])
        if f == "refused":
            return None
        if f == "forgotten":
            self.oldest = self.done + 1
            self.log.insert(self.done, ("PUT", self.p.route("SNI", sni="late", target=self.p.targets[2])))
            self.done += 1
        if f in (503, 410):
            return f, [], "eof"
        if last < self.oldest:
            return 410, [], "eof"
        lines = []
        ev = [{"id": k + 1, "type": t, "route": self.route_json(r)} for k, (t, r) in enumerate(self.log[:self.done])][last:]
        if ev:
            n = x.choice("batch%d" % self.asked, list(range(len(ev), 0, -1))) if f else len(ev)
            lines = [ev[:n]] + ([ev[n:]] if ev[n:] else [])
        data = [json.dumps({"events": l}).encode() + b"\n" for l in lines]
        if f == "closed":
            return 200, data[:1], "eof"
        if f in ("cut", "error"):
            if not data:
                return 200, [], "eof" if f == "cut" else "error"
            return 200, data[:-1] + [data[-1][:-2]], "eof" if f == "cut" else "error"
        if f == "garbage":
            return 200, data[:1] + [b"not json\n"], "eof"
        if self.done < len(self.log) or self.faults and f is None and x.flip("close%d" % self.asked):
            self.faults = max(0, self.faults - 1)
            return 200, data, "eof"
        return 200, data, "open"


def finish(x, p, g, probes):
    t = g.state()
    x.check(g.done == len(g.log), "every change was made")
    got = []
    for n in probes:
        got.append(t.probe_sni(n))
    got.append(t.probe_http("/p"))
    x.observe("tables", got)
    p.over()


@unit("feed", params=[dict(faults=f, order=o) for f, o in ((0, "PPD"), (1, "PPD"), (1, "PDP"), (2, "P"))],
      thorough_params=[dict(faults=f, order=o) for f, o in ((1, "PPP"), (2, "PD"), (2, "PP"), (3, "P"))], keep_models=2, reach=["a TLS route"])
def feed(x, faults, order):
    """changes that arrive over connections that fail in every way, anywhere"""
    p = Proxy(x)
    names = [x.str("name%d" % k, 1, 1, "ab") for k in range(len(order))]
    changes = []
    for k, o in enumerate(order):
        changes.append(("PUT" if o == "P" else "DELETE", p.route("SNI", sni=names[k], target=p.targets[k] if o == "P" else "")))
    if faults < 2:
        changes.insert(1, ("PUT", p.route("PATH", path="/p", target="http://t0")))
    g = Gateway(x, p, changes, faults, names)
    p.watch(g, SECOND)
    finish(x, p, g, ["a", "b", "late"] if any(r["sni"] == "late" for _, r in g.log) else ["a", "b"])


@unit("large batches", params=[dict(n=n, table=t) for n in (10, 380, 1000) for t in (False, True)], reach=["a TLS route"])
def batch(x, n, table):
    """as many changes at once as the gateway keeps"""
    p = Proxy(x)
    changes = [("PUT", p.route("SNI", sni="%032d" % k, target="tls://a-scheduler-with-a-long-name.example.com:8786")) for k in range(n)]
    changes.append(("PUT", p.route("SNI", sni=x.str("name", 1, 1, "ab"), target=p.targets[0])))
    g = Gateway(x, p, changes, 0, [])
    if table:
        g.done = len(g.log)
    else:
        g.more = lambda: None
        first = g.__call__

        def later(address):
            if "?" in address:
                g.done = len(g.log)
            return first(address)
        p.watch(later, SECOND)
    if table:
        p.watch(g, SECOND)
    t = Table(x, p)
    t.change(*changes[-1])
    x.observe("to", [t.probe_sni("a"), t.probe_sni("b")])
    p.over()
