"""C25: the scheduler reports its workers truthfully and adapts within bounds."""
import asyncio
import json

import tornado.httputil
import tornado.web

from symx.env import Patch, Stub, unit
from symx.vloop import VLoop

TECHNIQUE = "symbolic execution of the real scheduler plugin (Python source) on a virtual-time event loop, with symbolic counts, targets, bounds and activity times and chosen event orders; z3 over integers and reals"
LEVEL_NOTE = "For every order of up to 4 (thorough 5) joins, departures, scale requests and heartbeat outcomes among 3 workers; adaptive runs of up to 5 (thorough 7) targets with any bounds, changed on the way; any activity interval against the idle time-out."
BOUNDS = "3 workers; 4 (thorough 5) events per history; 5 (thorough 7) adaptive steps; one interval of work of each kind (running, waiting for a worker, queued) and up to 2 failed shutdown requests; request bodies with any count or bounds; tokens of up to 3 characters"
OUTSIDE = "which workers the scheduler picks for closing (any choice of the right number is tried) and how it retires them; the network"
ASSUMPTIONS = ["Scheduler.workers_to_close(target=n) names at most len(workers)-n known workers and retire_workers removes some of the named ones, as distributed documents", "scheduler.loop.time() and the transition log use one clock, as in distributed"]

PERIOD = 16.0


class Sched:
    """what the plugin uses of distributed's scheduler"""
    def __init__(self, x, loop):
        self.x, self.vl = x, loop
        self.loop = self
        self.address = "tls://10.0.0.1:8786"
        self.workers, self.services = {}, {"dashboard": Stub(x, "dashboard", port=8787)}
        self.plugins, self.unrunnable, self.queued, self.transition_log, self.time_started = [], {}, {}, [], 0.0
        self.retired, self.retire = [], None
        self.closable = None

    def time(self):
        return self.vl.now

    def add_plugin(self, plugin=None, **kw):
        self.plugins.append(plugin)

    def join(self, name):
        a = "tls://w:%s" % name
        self.workers[a] = Stub(self.x, "worker state", name=name, address=a, processing={}, nthreads=1)
        for p in self.plugins:
            p.add_worker(self, a)

    def leave(self, name):
        a = "tls://w:%s" % name
        del self.workers[a]
        for p in self.plugins:
            p.remove_worker(self, a, stimulus_id="s")

    @property
    def names(self):
        return [w.name for w in self.workers.values()]

    def workers_to_close(self, target=None, n=None, attribute="address", **kw):
        if kw or attribute != "name":
            self.x.missing("workers_to_close(%s)" % list(kw))
        if n is None:
            n = len(self.workers) - target
        return self.closable(n) if n > 0 else []

    async def retire_workers(self, workers=None, names=None, close_workers=False, remove=True, **kw):
        if kw or workers is not None:
            self.x.missing("retire_workers(%s)" % list(kw))
        await self.retire(list(names))

    def adaptive_target(self, target_duration=None):
        return self.target()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.x.missing("scheduler.%s" % k)


class Gateway:
    def __init__(self, heartbeat, shutdown=None):
        self.token, self.cluster_name = "tok", "c1"
        self.heartbeat, self.shutdown = heartbeat, shutdown


class Server:
    def __init__(self):
        self._sockets = {3: self}

    def getsockname(self):
        return ("", 4321)

    def stop(self):
        pass


class Run:
    """the plugin of one scheduler on a fresh loop"""
    def __init__(self, x, heartbeat=None, shutdown=None, **kw):
        self.x, self.kw = x, dict(dict(heartbeat_period=PERIOD, adaptive_period=3.0, idle_timeout=0.0), **kw)
        self.heartbeat, self.shutdown = heartbeat, shutdown
        self.patch = Patch()

    def __enter__(self):
        import dask_gateway.scheduler_preload as m
        self.loop = VLoop(self.x)
        asyncio.set_event_loop(self.loop)
        self.s = Sched(self.x, self.loop)
        self.patch.set(tornado.web.Application, "listen", lambda app, port=0, address="", **kw: Server())

        async def none(*a):
            pass
        self.patch.set(m, "make_gateway_client", lambda: Gateway(self.heartbeat or none, self.shutdown or none))
        return self

    async def start(self):
        import dask_gateway.scheduler_preload as m
        k = self.kw
        m.dask_setup.callback(self.s, dg_adaptive_period=k["adaptive_period"], dg_heartbeat_period=k["heartbeat_period"], dg_idle_timeout=k["idle_timeout"], dg_api_address=":0")
        self.service = self.s.services["gateway"]

    def __exit__(self, *a):
        self.patch.undo()
        self.loop.shutdown()


def reported(x, r, msg, count, left, lost):
    """one heartbeat against what is true: left = names gone whose departure has not been delivered"""
    names = r.s.names
    act, clo, done = msg["active_workers"], msg["closing_workers"], msg["closed_workers"]
    x.check(all(type(v) is list for v in (act, clo, done)), "the lists can be sent")
    x.check(sorted(list(act) + list(clo)) == sorted(names), "every worker the scheduler knows is reported once, as active or closing")
    x.check(all(n in done for n in left), "every worker that left is reported as closed until that was delivered")
    x.check(all(n in lost and n not in names for n in done), "only workers that left are reported as closed")
    x.check(msg["count"] == count, "the currently requested count is reported")
    if clo:
        x.reach("closing")
        x.check(len(clo) <= len(names) - count, "only what exceeds the request is closed")
    x.check(msg["scheduler_address"] == "tls://10.0.0.1:8786" and msg["dashboard_address"] == "http://10.0.0.1:8787" and msg["api_address"] == "http://10.0.0.1:4321", "the addresses are the scheduler's")


def history(x, n, period):
    state = {"count": 0, "left": [], "lost": [], "flight": 0, "since": None, "fails": 0, "beats": 0, "closing": None, "announced": set()}

    async def heartbeat(msg):
        state["beats"] += 1
        reported(x, r, msg, state["count"], state["left"], state["lost"])
        x.check(state["flight"] == 0, "one heartbeat at a time")
        for k in ("scaled", "unexpected"):
            if state.get(k) is not None and x.eq(msg["count"], state["count"]):
                state[k] = None
        sent = list(msg["closed_workers"])
        state["flight"] = 1
        how = x.choice("beat%d" % state["beats"], ["ok", "slow", "fails"]) if state["beats"] <= 2 else "ok"
        try:
            await asyncio.sleep(1.0 if how == "slow" else 0)
            if how == "fails":
                state["fails"] += 1
                state["scaled"] = state["unexpected"] = None
                raise OSError("refused")
        finally:
            state["flight"] = 0
        state["left"] = [w for w in state["left"] if w not in sent or w in r.s.names]
        state["closing"] = list(msg["closing_workers"])
        x.reach("beat")

    def closable(k):
        names = r.s.names
        most = [c for c in range(1, len(names) + 1) if x.conc(c <= k)] if not isinstance(k, int) else list(range(1, min(k, len(names)) + 1))
        k = most[-1] if most else 0
        if k == 1:
            return [x.choice("close", names)]
        return names[:k]

    async def retire(names):
        x.check(sorted(names) == sorted(state["closing"] or []), "only workers reported as closing are retired")
        x.check(all(w in r.s.names for w in names) or state.get("moved"), "known workers are retired")
        how = x.choice("retire%d" % len(r.s.retired), ["all", "none", "fails"]) if len(r.s.retired) < 2 else "all"
        r.s.retired.append(list(names))
        await asyncio.sleep(0)
        if how == "fails":
            state["scaled"] = state["unexpected"] = None
            state["fails"] += 1
            raise RuntimeError("cannot retire")
        state["announced"] |= set(names)
        if how == "all":
            x.reach("retired")
            for w in names:
                if w in r.s.names:
                    gone(w)

    def gone(w):
        state["left"].append(w)
        state.setdefault("when", {})[w] = r.loop.now
        if w not in state["lost"]:
            state["lost"].append(w)
        r.s.leave(w)

    async def main():
        await r.start()
        r.s.closable, r.s.retire = closable, retire
        await asyncio.sleep(0.5 if period else 0.0)
        for i in range(n):
            here = r.s.names
            options = ["scale"] + (["join"] if len(here) < 3 else []) + (["leave"] if here else []) + ["pause"]
            ev = x.choice("event%d" % i, options if i else options[:-1])
            if ev == "join":
                w = [c for c in "abc" if c not in here][0] if not state["lost"] else x.choice("who%d" % i, [c for c in "abc" if c not in here])
                state["left"] = [v for v in state["left"] if v != w]
                state["moved"] = True
                state["announced"].discard(w)
                r.s.join(w)
            elif ev == "leave":
                state["moved"] = True
                w = x.choice("who%d" % i, here) if i > 1 else here[0]
                gone(w)
                if period and w not in state["announced"]:
                    state["unexpected"] = r.loop.now
            elif ev == "scale":
                c = x.int("count%d" % i, 0, 5)
                old = state["count"]
                state["count"] = c
                if x.no(x.eq(c, old)):
                    state["scaled"] = r.loop.now
                await r.service.scale(c)
                x.check(x.eq(r.service.count, c), "a scale request sets the count exactly")
            else:
                await asyncio.sleep(0.5 if i % 2 else 5.0)
                judge_prompt()
        await asyncio.sleep(6.0)
        judge_prompt()
        if not state["fails"] and period:
            await asyncio.sleep(PERIOD)
            x.check(all(state["when"][w] + PERIOD + 1.5 > r.loop.now for w in state["left"]), "departures are reported within a heartbeat period")

    def judge_prompt():
        t = state.get("scaled")
        if t is not None and not state["flight"]:
            x.check(r.loop.now <= t + 1.5, "a new count is reported at once")
        t = state.get("unexpected")
        if t is not None and not state["flight"]:
            x.check(r.loop.now <= t + 4.5, "an unexpected departure is reported soon")
    with Run(x, heartbeat=heartbeat, heartbeat_period=period) as r:
        r.loop.drive(main())


@unit("history", params=[{"n": 3, "period": PERIOD}, {"n": 3, "period": 0.0}], thorough_params=[{"n": 4, "period": PERIOD}], reach=["beat"], time_limit=800)
def history_(x, n, period):
    history(x, n, period)


KINDS = ["both", "min", "max", "none"]


@unit("adapt", params=[{"n": 3, "bounds": k, "change": None} for k in KINDS] + [{"n": 2, "bounds": a, "change": b} for a, b in (("none", "min"), ("max", "both"), ("both", "both"), ("both", "none"), ("min", "max"))] + [{"n": 3, "bounds": "none", "change": "max"}],
      thorough_params=[{"n": 4, "bounds": k, "change": None} for k in KINDS] + [{"n": 3, "bounds": a, "change": b} for a in KINDS for b in KINDS], reach=["explicit"], time_limit=800)
def adapt(x, n, bounds, change):
    """the adaptive loop against any targets and bounds, then an explicit scale request at any moment"""
    def some(i, kind):
        lo = x.int("minimum%d" % i, 0, 50) if kind in ("both", "min") else None
        hi = x.int("maximum%d" % i, 0, 50) if kind in ("both", "max") else None
        if lo is not None and hi is not None:
            x.assume(lo <= hi)
        return lo, hi

    def clamp(v, b):
        if b[0] is not None:
            v = x.max(v, b[0])
        return x.min(v, b[1]) if b[1] is not None else v
    state = {"b": None, "seen": [], "last": 0, "i": 0}

    def target():
        note()
        i = state["i"] = state["i"] + 1
        if x.choice("broken%d" % i, [False, True]) if i == 2 and bounds == "max" and change is None else False:
            raise RuntimeError("no target")
        t = state["final"] = x.int("target%d" % i, 0, 50) if i <= n else state["final"]
        state["seen"].append(clamp(t, state["b"]))
        return t

    def note():
        """called before every step: the count was last changed by the step before"""
        c = r.service.count
        old, b = state["last"], state["b"]
        state["last"] = c
        if x.eq(c, old):
            return
        x.check(b[0] is None or c >= b[0], "no count below the minimum is requested")
        x.check(b[1] is None or c <= b[1], "no count above the maximum is requested")
        want = state["seen"][-1]
        x.check(c >= want, "the workers the current work needs are requested")
        if c > old:
            x.check(x.eq(c, want), "just the workers needed are requested")
            x.reach("up")
        else:
            x.reach("down")

    async def main():
        state["final"] = 0
        await r.start()
        r.s.target = target
        c0 = x.int("count0", 0, 50)
        await r.service.scale(c0)
        state["last"] = r.service.count
        state["b"] = some(0, bounds)
        await r.service.adapt(minimum=state["b"][0], maximum=state["b"][1])
        k = x.choice("at", list(range(1, n))) if change and n > 2 else n
        await asyncio.sleep(3.0 * k - 0.5)
        if change:
            note()
            state["b"] = some(1, change)
            await r.service.adapt(minimum=state["b"][0], maximum=state["b"][1], active=True)
        await asyncio.sleep(3.0 * (n - k + 4))
        note()
        b = state["b"]
        x.check(x.eq(r.service.count, clamp(state["final"], b)), "a lasting target is requested within the window")
        d = x.int("explicit", 0, 50)
        await r.service.scale(d)
        await asyncio.sleep(10.0)
        x.check(x.eq(r.service.count, d), "an explicit request ends adaptive scaling")
        x.reach("explicit")
    with Run(x) as r:
        r.loop.drive(main())


@unit("interplay", params=[{"op": o} for o in ("scale", "off", "adapt")], reach=["done"])
def interplay(x, op):
    """another request at any scheduling point of an adaptive step"""
    async def main():
        await r.start()
        r.s.target = lambda: targets[0]
        targets = [x.int("target", 1, 9)]
        await asyncio.sleep(1.0)
        await r.service.adapt(minimum=0, maximum=9)
        for _ in range(x.choice("ticks", list(range(8)))):
            await asyncio.sleep(0)
        n = x.int("count", 0, 9)
        if op == "scale":
            co = r.service.scale(n)
        elif op == "off":
            co = r.service.adapt(active=False)
        else:
            co = r.service.adapt(minimum=n, maximum=n)
        t = r.loop.now
        try:
            await asyncio.wait_for(co, 20.0)
        except asyncio.TimeoutError:
            x.check(False, "a request is answered")
        x.check(r.loop.now == t, "a request is answered at once")
        c = r.service.count
        await asyncio.sleep(12.0)
        if op == "off":
            x.check(x.eq(r.service.count, c), "adaptive scaling is off")
        else:
            x.check(x.eq(r.service.count, n), "the request is in force")
        x.reach("done")
    with Run(x) as r:
        r.loop.drive(main())


@unit("idle", params=[{"kind": k} for k in ("processing", "unrunnable", "queued", "transition")], reach=["asked"])
def idle(x, kind):
    """one interval of work at any time; the idle time-out is 8"""
    T = 8.0
    a = x.real("begin", 0, 5)
    b = x.real("end", 0, 13)
    x.assume(a <= b)
    asked = []

    def busy():
        return x.all(a <= r.loop.now, r.loop.now < b)

    class Now(dict):
        """a collection that is non-empty while there is work"""
        def __bool__(self):
            return bool(busy())

        def __len__(self):
            return 1 if busy() else 0

    class Log:
        def __bool__(self):
            return bool(a <= r.loop.now)

        def __len__(self):
            return 1 if a <= r.loop.now else 0

        def __getitem__(self, i):
            if i != -1:
                x.missing("transition log")
            return ("k", "s", "f", {}, "id", b if b <= r.loop.now else a)

    async def shutdown():
        now = r.loop.now
        x.check(x.no(busy()), "a cluster with work is not shut down")
        last = x.ite(b <= now, b, x.ite(a <= now, a, 0.0)) if True else None
        x.check(now - last > T, "the cluster was idle for the whole configured time")
        asked.append(now)
        x.reach("asked")
        await asyncio.sleep(0)
        if len(asked) <= 2 and x.choice("refused%d" % len(asked), [False, True]):
            raise OSError("gateway away")
        state["ok"] = True
    state = {}

    async def main():
        if kind == "processing":
            busy_first = x.flip("order")
            for w in ("v", "w") if busy_first else ("w", "v"):
                r.s.workers["tls://" + w] = Stub(x, "worker state", name=w, processing=Now() if w == "v" else {}, nthreads=1)
        elif kind in ("unrunnable", "queued"):
            setattr(r.s, kind, Now())
        else:
            x.assume(a == b)
        r.s.transition_log = Log()
        await r.start()
        await asyncio.sleep(13.0 + T + 7 * T / 4)
        x.check(state.get("ok"), "an idle cluster asks for its shutdown until it is heard")
        r.service.stop()
    with Run(x, shutdown=shutdown, idle_timeout=T) as r:
        r.loop.drive(main())


@unit("never_idle", reach=["done"])
def never_idle(x):
    """no time-out configured"""
    async def shutdown():
        x.check(False, "without a time-out no shutdown is asked for")

    async def main():
        await r.start()
        await asyncio.sleep(4000.0)
        x.reach("done")
    with Run(x, shutdown=shutdown, idle_timeout=x.choice("timeout", [0.0, -1.0]), heartbeat_period=1000.0) as r:
        r.loop.drive(main())


class Conn:
    """the connection of one request to the scheduler's api"""
    def __init__(self, x):
        self.x, self.status, self.body = x, None, b""

    def set_close_callback(self, cb):
        pass

    def write_headers(self, start_line, headers, chunk=None):
        self.status = start_line.code
        return self.done()

    def done(self):
        f = asyncio.get_event_loop().create_future()
        f.set_result(None)
        return f

    def write(self, chunk):
        return self.done()

    def finish(self):
        pass


class HeaderDict(dict):
    def get(self, k, d=None):
        return next((v for q, v in self.items() if q.lower() == k.lower()), d)


@unit("api", params=[{"kind": k} for k in ("scale", "adapt", "other", "health")], reach=["answered"])
def api(x, kind):
    """requests to the plugin's own web service"""
    from tornado.httputil import HTTPServerRequest
    token = x.choice("header", ["good", "symbolic", "none", "Bearer tok", "tok", "token  tok"])
    if token == "symbolic":
        token = "token " + x.str("token", 3, 0)
    elif token == "good":
        token = "token tok"
    path = "/api/health" if kind == "health" else "/api/comm"
    if kind == "scale":
        n = x.int("count", 0, 99)
        body = {"op": "scale", "count": n}
    elif kind == "adapt":
        lo, hi = (None, 9) if x.flip("no_minimum") else (3, None)
        t = x.int("target", 0, 20)
        body = {"op": "adapt", "minimum": lo, "maximum": hi}
        if x.flip("with_active"):
            body["active"] = x.choice("active", [True, False])
    else:
        body = {"op": x.choice("op", ["stop", "", None]), "count": 5}
    allowed = token != "none" and bool(x.eq(token, "token tok"))

    async def main():
        await r.start()
        r.s.target = lambda: t
        c0 = x.int("before", 0, 99)
        await r.service.scale(c0)
        if x.symbolic:
            import symx.models as sm
            raw = sm.m_dumps(body)
        else:
            raw = json.dumps(body).encode()
        conn = Conn(x)
        req = HTTPServerRequest(method="GET" if kind == "health" else "POST", uri=path, version="HTTP/1.1", headers=tornado.httputil.HTTPHeaders({"Host": "a"}), body=raw, connection=conn, host="a")
        req.headers = HeaderDict({"Content-Type": "application/json", "Host": "a"})
        if token != "none":
            req.headers["Authorization"] = token
        h = r.service.app.find_handler(req)
        h.request.body = raw
        fut = h.execute()
        if fut is not None:
            await fut
        await asyncio.sleep(12.0)
        got = r.service.count
        if kind == "health":
            x.check(conn.status == 200 and x.eq(got, c0), "a health request is answered")
        elif not allowed:
            x.check(conn.status >= 400 and x.eq(got, c0), "a request without the cluster's token is refused")
        elif kind == "other":
            x.check(conn.status >= 400 and x.eq(got, c0), "an unknown request is refused")
        elif kind == "scale":
            x.check(conn.status == 200 and x.eq(got, n), "a scale request sets the count exactly")
        else:
            want = x.max(t, lo) if lo is not None else x.min(t, hi)
            x.check(conn.status == 200, "an adapt request is accepted")
            x.check(x.eq(got, want if body.get("active", True) else c0), "an adapt request sets the bounds")
        x.reach("answered")
    with Run(x) as r:
        r.loop.drive(main())


@unit("wire", params=[{"op": o} for o in ("heartbeat", "shutdown")], reach=["sent"])
def wire(x, op):
    """what goes to the gateway, and what its answer means"""
    import dask_gateway.scheduler_preload as m
    from tornado.httpclient import HTTPError
    sent = []
    fails = x.choice("answer", ["ok", "status", "broken"])

    class Request:
        def __init__(self, url, method="GET", headers=None, body=None, **kw):
            self.url, self.method, self.headers, self.body = url, method, headers, body

    class Client:
        async def fetch(self, req, **kw):
            if not isinstance(req, Request):
                req = Request(req, **kw)
            sent.append(req)
            if fails == "status":
                raise HTTPError(x.choice("code", [401, 404, 500]))
            if fails == "broken":
                raise OSError("broken")
            return Stub(x, "response", code=200, body=b"")
    count = x.int("count", 0, 99)
    msg = {"count": count, "active_workers": ["a"], "closing_workers": [], "closed_workers": ["b", "c"], "scheduler_address": "s", "dashboard_address": "d", "api_address": "x"}
    with Patch() as p:
        p.set(m, "AsyncHTTPClient", Client)
        p.set(m, "HTTPRequest", Request)
        import os
        p.set(os, "environ", {"DASK_GATEWAY_CLUSTER_NAME": "c1", "DASK_GATEWAY_API_URL": "http://gw/api", "DASK_GATEWAY_API_TOKEN": "tok"})

        async def go():
            c = m.make_gateway_client()
            try:
                await (c.heartbeat(msg) if op == "heartbeat" else c.shutdown())
                return True
            except Exception:
                return False
        loop = VLoop(x)
        asyncio.set_event_loop(loop)
        try:
            ok = loop.drive(go())
        finally:
            loop.shutdown()
        x.check(ok == (fails == "ok"), "a failed request is noticed")
        x.check(len(sent) == 1, "one request is sent")
        r = sent[0]
        x.check(r.headers.get("Authorization") == "token tok", "it carries the cluster's token")
        if op == "shutdown":
            x.check(r.method == "DELETE" and r.url == "http://gw/api/v1/clusters/c1", "the gateway is asked to stop this cluster")
        else:
            x.check(r.method == "POST" and r.url == "http://gw/api/v1/clusters/c1/heartbeat", "the gateway gets this cluster's heartbeat")
            got = m.json.loads(r.body) if not x.symbolic else x.unjson(r.body)
            x.check(set(got) == set(msg) and x.all(*[x.eq(got[k], msg[k]) for k in msg]), "it gets the whole message")
        x.reach("sent")
