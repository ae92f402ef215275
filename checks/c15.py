"""C15: proxies that follow the route feed converge to the gateway's routes."""
import asyncio
import json

from aiohttp import web

from restlib import Request, body_of, fake_json_response
from symx.env import Patch, Stub, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real route table, event log and feed handler (Python source) over symbolic histories of changes, connections and positions; z3"
LEVEL_NOTE = "Every history of up to 4 (thorough 6) changes of an SNI and a PATH route with every moment of loading, connecting, losing and resuming the feed, retention limits 2..100, and any integer position; request headers up to 8 arbitrary characters."
BOUNDS = "4 (thorough 6) route changes on 2 routes; one proxy that loads, connects, disconnects and resumes once, beside one that stays connected; any integer last_id; max_events 2, 3 and 100"
OUTSIDE = "the HTTP transport; what the proxy does with the events (C32)"
ASSUMPTIONS = ["a queue write between two suspension points is atomic (asyncio)"]
KEYS = [("SNI", "a"), ("PATH", "/a")]


class Feed:
    """one connection of a proxy"""
    def __init__(self):
        self.got = []
        self.task = None


async def spin(n=6):
    for _ in range(n):
        await asyncio.sleep(0)


class Gateway:
    def __init__(self, x, m, p, max_events, prefix=""):
        self.x, self.m = x, m
        self.handler = None
        self.gate = None
        gw = self

        class App:
            on_shutdown = []

            def add_routes(self, rs):
                for r in rs:
                    if r.path == "/api/v1/routes" and r.method == "GET":
                        gw.handler = r.handler

        class StreamResponse:
            def __init__(self, *a, **k):
                self.feed = None

            async def prepare(self, request):
                self.feed = request["feed"]
                if gw.gate is not None:
                    await gw.gate      # sending the response headers takes until then

            async def write(self, data):
                # a consumer decodes one JSON document after the other
                self.feed.got.append(gw.decode(data))

            async def write_eof(self, *a):
                pass
        p.set(web, "StreamResponse", StreamResponse)
        x.model(web.json_response, fake_json_response(x))
        self.app = App()
        self.prefix = prefix
        self.proxy = m.Proxy(externally_managed=True, gateway_url="http://gw", api_token="tk", max_events=max_events, prefix=prefix)
        self.ref = {("PATH", prefix + "/"): "http://gw"}

    def decode(self, data):
        return json.loads(data)

    async def setup(self):
        await self.proxy.setup(self.app)

    async def change(self, add, key, target):
        kind, n = key
        kw = {"sni": n} if kind == "SNI" else {"path": n}
        full = (kind, n if kind == "SNI" else self.prefix + n)
        if add:
            await self.proxy.add_route(kind=kind, target=target, **kw)
            self.ref[full] = target
            return 1
        await self.proxy.remove_route(kind=kind, **kw)
        return 1 if self.ref.pop(full, None) is not None else 0

    def request(self, feed=None, query=None, headers=None):
        r = Request(self.x, "GET", "/api/v1/routes", self.app, query=query or {}, headers={"Authorization": "token tk"} if headers is None else headers)
        r["feed"] = feed
        return r

    async def load(self):
        """-> (table, id)"""
        d = body_of(self.x, await self.handler(self.request()))
        return {key_of(r): r["target"] for r in d["routes"]}, d["id"]

    async def connect(self, last_id):
        """-> Feed or None when told to reload"""
        f = Feed()
        f.task = asyncio.ensure_future(self.handler(self.request(f, {"watch": "1", "last_id": last_id})))
        await spin()
        if f.task.done():
            try:
                f.task.result()
            except web.HTTPGone:
                return None
        return f


def key_of(r):
    return (r["kind"], r["sni"] if r["kind"] == "SNI" else r["path"])


def apply(table, e):
    if e["type"] == "PUT":
        table[key_of(e["route"])] = e["route"]["target"]
    else:
        table.pop(key_of(e["route"]), None)


def events(feed):
    return [e for d in feed.got for e in d["events"]]


FOLLOW = [{"k": 4, "retain": r, "load": i, "drop": False, "prefix": p} for i in (0, 2) for r, p in ((100, "/p"), (3, ""))] + [{"k": 3, "retain": r, "load": 0, "drop": True, "prefix": ""} for r in (2, 100)]


@unit("follow", params=FOLLOW, thorough_params=[{"k": 5, "retain": r, "load": i, "drop": d, "prefix": ""} for r in (2, 3, 4) for i, d in ((0, False), (1, False), (0, True))], reach=["converged"])
def follow(x, k, retain, load, drop, prefix):
    """load after `load` changes, connect later, possibly lose the connection and resume still later"""
    import dask_gateway_server.proxy.core as m

    async def main():
        with Patch() as p:
            g = Gateway(x, m, p, retain, prefix)
            await g.setup()
            steady_table, first_id = await g.load()
            steady = await g.connect(first_id)
            x.check(steady is not None, "a proxy that just loaded can follow")
            conn = x.choice("connect_at", range(load, k + 1))
            lose = x.choice("drop_at", range(conn, k + 1)) if drop else None
            back = x.choice("resume_at", range(lose, k + 1)) if drop else None
            burst = x.flip("burst")
            table = feed = None
            pos = 0
            n_changes = 0

            def take():
                nonlocal pos
                for e in events(feed):
                    x.check(e["id"] == pos + 1, "events arrive in order without gap or repetition")
                    pos = e["id"]
                    apply(table, e)

            async def attach():
                nonlocal table, pos, feed
                feed = await g.connect(pos)
                if feed is None:
                    table, pos = await g.load()
                    feed = await g.connect(pos)
                    x.check(feed is not None, "a proxy that just loaded can follow")
            for i in range(k + 1):
                if i == load:
                    table, pos = await g.load()
                    x.check(x.eq(table, dict(g.ref)), "the table a proxy loads is the gateway's")
                if i == conn:
                    await attach()
                if drop and i == lose:
                    await spin()
                    take()
                    feed.task.cancel()
                    await spin()
                    feed = None
                if drop and i == back:
                    await attach()
                if i < k:
                    key = KEYS[x.choice("key%d" % i, [0, 1])] if i else KEYS[0]
                    n_changes += await g.change(x.flip("add%d" % i), key, "t%d" % i)
                    if not burst:
                        await spin(3)
            await spin()
            take()
            es = events(steady)
            x.check([e["id"] for e in es] == list(range(first_id + 1, first_id + 1 + n_changes)), "every change has one event with the next id, and nothing else has one")
            for e in es:
                apply(steady_table, e)
            x.observe("tables", [sorted(map(list, table.items())), sorted(map(list, steady_table.items()))])
            x.check(x.eq(table, dict(g.ref)), "a proxy that loads, follows and resumes has the gateway's routes")
            x.check(x.eq(steady_table, dict(g.ref)), "a proxy that stays connected has the gateway's routes")
            x.check(len([r for r in (await g.load())[0]]) == len(g.ref), "the table has every route once")
            x.reach("converged")
    run_coro(x, main)


@unit("position", params=[{"k": k, "retain": r} for k in (0, 3, 5) for r in (2, 3, 4, 5, 100)], thorough_params=[{"k": 9, "retain": r} for r in (2, 3, 4, 5, 7, 8)], reach=["refused", "accepted"])
def position(x, k, retain):
    """any last_id: exactly what follows it, or told to reload"""
    import dask_gateway_server.proxy.core as m

    async def main():
        with Patch() as p:
            g = Gateway(x, m, p, retain)
            await g.setup()
            for i in range(k):
                await g.change(True, ("SNI", "s%d" % i), "t%d" % i)
            _, newest = await g.load()
            pos = x.int("last_id")
            more = x.choice("more", [0, 1, 2])
            if more == 2:
                g.gate = asyncio.get_running_loop().create_future()
            f = await g.connect(pos)
            more = min(more, 1)
            for i in range(more):
                await g.change(True, ("SNI", "more"), "m")
            if g.gate is not None:
                g.gate.set_result(None)
            await spin()
            x.observe("feed", None if f is None else [e["id"] for e in events(f)])
            if f is None:
                x.check(x.any(pos < 0, pos > newest, pos < newest - retain // 2), "a position that is known and recent enough is not refused")
                x.reach("refused")
            else:
                x.check(x.all(pos >= 0, pos <= newest), "an unknown position is told to reload")
                es = events(f)
                x.check(pos + len(es) == newest + more, "everything after the position is sent")
                for i, e in enumerate(es):
                    x.check(e["id"] == pos + 1 + i, "events are sent in order without gap or repetition")
                x.reach("accepted")
    run_coro(x, main)


@unit("access", params=[{"watch": w} for w in (False, True)], reach=["refused", "granted"])
def access(x, watch):
    """only a proxy that knows the token gets the routes"""
    import dask_gateway_server.proxy.core as m

    async def main():
        with Patch() as p:
            g = Gateway(x, m, p, 100)
            await g.setup()
            kind = x.choice("header", ["absent", "any", "token", "basic"])
            h = {"absent": None, "any": lambda: x.str("h", 8, alphabet="token kx"), "token": lambda: "token " + x.str("v", 3, 1), "basic": lambda: "Basic " + x.str("v", 2)}[kind]
            h = h() if h is not None else None
            if h is not None and len(h):
                x.assume(x.all(h[0] != " ", h[len(h) - 1] != " "))
            f = Feed()
            req = g.request(f, {"watch": "1", "last_id": "0"} if watch else {}, {} if h is None else {"Authorization": h})
            t = asyncio.ensure_future(g.handler(req))
            await spin()
            code = None
            if t.done():
                try:
                    t.result()
                except web.HTTPException as e:
                    code = e.status
            right = h is not None and h == "token tk"
            if right:
                x.check(code is None and (watch or t.done()), "the token gives access")
                x.reach("granted")
            else:
                x.check(code == 401 and not f.got, "nothing else does")
                x.reach("refused")
            t.cancel()
    run_coro(x, main)


@unit("bad_position", reach=["refused"])
def bad_position(x):
    import dask_gateway_server.proxy.core as m

    async def main():
        with Patch() as p:
            g = Gateway(x, m, p, 100)
            await g.setup()
            f = Feed()
            t = asyncio.ensure_future(g.handler(g.request(f, {"watch": "1", "last_id": x.choice("last_id", ["x", "", "1.5", "-"])})))
            await spin()
            x.check(t.done() and isinstance(t.exception(), web.HTTPUnprocessableEntity), "a position that is no number is refused")
            x.reach("refused")
    run_coro(x, main)
