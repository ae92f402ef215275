"""C30: a client-side cluster handle manages the remote cluster exactly once."""
import asyncio
import concurrent.futures
import warnings

import aiohttp

from clientlib import Client, report
from sesslib import Answer, refused
from symx.env import Stub, unit

TECHNIQUE = "symbolic execution of the real client (Python source) on a virtual-time event loop with symbolic times of closing, cancelling and answering, and of its address handling with symbolic hosts, ports and paths; z3 over integers, reals and strings"
LEVEL_NOTE = "Asynchronous handles: every order of an owner (awaiting or in a context), up to 2 (thorough 3) explicit closes with any argument and a cancellation, at symbolic times within the first 8 seconds, with every outcome of the requests. Synchronous handles: every sequence of 2 (thorough 4) ways to close, with an interruption at a symbolic time of the start. Addresses: names, IPv4 and IPv6 hosts, ports and paths of up to 4 symbolic characters, in every place an address can be given."
BOUNDS = "2 (thorough 3) closers or 2 (thorough 4) closing calls; address parts of up to 4 characters, ports of up to 5 digits"
OUTSIDE = "a handle closed before the answer to its submission, which has no cluster yet; widgets"
ASSUMPTIONS = ["distributed's rpc and Client objects are closed by close_rpc() and _close()", "unchanged urllib.parse.urlparse and distributed.comm.addressing, run symbolically from their source"]


class World:
    """the gateway and the scheduler as a handle sees them"""
    def __init__(self, x, full=2):
        self.x, self.full = x, full
        self.deletes, self.rpcs, self.comms, self.submits = [], [], [], 0
        self.named = None               # when the client learnt the name
        self.unclean = False
        self.failed = None              # when the start failed

    def script(self, method, url, kw):
        x = self.x
        if method == "POST":
            x.check(url == "http://host/api/v1/clusters/", "the cluster is submitted")
            self.submits += 1
            return self.submit()
        if method == "DELETE":
            x.check(url == "http://host/api/v1/clusters/c1", "the handle's own cluster is stopped")
            self.deletes.append(self.loop.now)
            return self.delete()
        x.check(method == "GET" and url == "http://host/api/v1/clusters/c1?wait", "the cluster is waited for")
        return self.wait()

    async def submit(self):
        await asyncio.sleep(1)
        r = self.x.choice("submit", ["ok", 500, "broken"] if self.full == 2 else ["ok", "broken"])
        if r == "ok":
            self.named = self.loop.now
            return Answer(self.x, 201, {"name": "c1"})
        self.failed = self.loop.now
        if r == "broken":
            raise refused()
        return Answer(self.x, r, {"error": "no"})

    async def wait(self):
        await asyncio.sleep(1)
        r = self.x.choice("wait", ["RUNNING", "FAILED", "broken"] if self.full == 2 else ["RUNNING", "FAILED"])
        if r != "RUNNING":
            self.failed = self.loop.now
        if r == "broken":
            raise refused()
        return Answer(self.x, 200, report(r))

    async def delete(self):
        await asyncio.sleep(1)
        r = self.x.choice("delete", [204, 404, "broken"] if self.full == 2 else [204, "broken"])
        if r == "broken":
            raise refused()
        return Answer(self.x, r, ValueError("no body"))

    def rpc(self, addr, connection_args=None, **kw):
        x = self.x
        x.check(addr == "gateway://host:80/c1" and connection_args == {"role": "client"}, "the scheduler is reached through the proxy, with the credentials")
        r = {"closed": 0}
        self.rpcs.append(r)

        async def close_rpc():
            r["closed"] += 1
            if self.full and self.x.flip("rpc close fails"):
                self.unclean = True
                raise OSError("already gone")

        async def live_comm():
            await asyncio.sleep(1)
            if self.full and x.flip("no comm"):
                raise OSError("no comm")
            k = {"closed": 0, "reads": 0}
            self.comms.append(k)

            async def write(msg):
                x.check(msg == {"op": "subscribe_worker_status"}, "the state of the workers is subscribed to")

            async def read():
                k["reads"] += 1
                if k["reads"] == 1:
                    return {"workers": {}}
                await asyncio.sleep(1000000)

            async def close():
                k["closed"] += 1
            return Stub(x, "comm", write=write, read=read, close=close)
        return Stub(x, "rpc", live_comm=live_comm, close_rpc=close_rpc)

    def install(self, c):
        self.loop = c.loop
        c.patch.set(c.m, "rpc", self.rpc)
        c.patch.set(c.m.GatewaySecurity, "get_connection_args", lambda s, role: {"role": role})

    def closed(self, h):
        self.x.check(h.status == "closed" or self.unclean and h.status == "closing", "the handle is closed", info={"status": h.status})

    def judge(self, c, h, owns, events, live=()):
        """after everything: events are (time, shutdown argument) of what closes the handle"""
        x = self.x
        n = len(self.deletes)
        x.check(n <= 1, "the cluster is stopped once at most", info={"deletes": n})
        self.closed(h)
        if not events:
            x.check(n == 0, "nothing is stopped without a close")
        else:
            earliest = [i for i, e in enumerate(events) if all(bool(e[0] <= f[0]) for f in events)]
            may = set()
            for i in earliest:
                t, arg = events[i]
                stop = bool(owns) if arg is None else arg
                if self.named is None:
                    known = {False}
                elif self.named < t:
                    known = {True}
                elif self.named > t:
                    known = {False}
                else:
                    known = {True, False}
                may |= {stop and k for k in known}
            x.check((n == 1) in may, "the cluster is stopped if the handle's first close has to, and not otherwise", info={"deletes": n, "expected": sorted(may)})
            x.reach("stopped" if n else "kept")
        x.check(all(r["closed"] for r in self.rpcs), "connections to the scheduler are closed")
        x.check(all(k["closed"] for k in self.comms), "the subscription is closed")
        x.check(all(s.closed for s in c.sessions), "connections to the gateway are closed")
        x.check(h not in type(h)._instances, "the handle isn't closed again at exit")


@unit("asynchronous", params=[{"how": h, "named": n, "closers": k, "cancel": a, "full": f} for h in ("with", "await") for n in (False, True) for k, a, f in ((1, True, 1), (2, False, 0))],
      thorough_params=[{"how": h, "named": n, "closers": k, "cancel": a} for h in ("with", "await", "unused") for n in (False, True) for k, a in ((1, True), (2, False), (2, True), (3, False))], reach=["stopped", "kept"])
def asynchronous(x, how, named, closers, cancel, full=2):
    """an asynchronous handle that several tasks use"""
    owns = x.bool("owns")
    events, called = [], []
    w = World(x, full)
    with Client(x, w.script) as c:
        w.install(c)

        async def main():
            kw = dict(address="http://host", asynchronous=True, shutdown_on_close=owns)
            if named:
                h = c.m.GatewayCluster.from_name("c1", **kw)
                w.named = -1
            else:
                h = c.m.GatewayCluster(**kw)

            async def owner():
                try:
                    if how == "with":
                        async with h as r:
                            x.check(r is h, "the handle is its own context")
                            x.check(bool(called) or h.status == "running", "the context starts with the cluster running")
                            try:
                                await asyncio.sleep(2)
                            finally:
                                events.append((c.loop.now, None))
                    else:
                        await h
                        x.check(bool(called) or h.status == "running", "awaiting the handle starts the cluster")
                        x.reach("started")
                except (c.m.GatewayClusterError, c.m.GatewayServerError, aiohttp.ClientError, asyncio.CancelledError):
                    pass

            async def closer(i):
                await asyncio.sleep(x.real("close%d" % i, 0, 8))
                arg = x.choice("shutdown%d" % i, [None, True, False])
                events.append((c.loop.now, arg))
                called.append(i)
                await (h.close(shutdown=arg) if arg is not True else h.shutdown())
                w.closed(h)
                x.check(all(s.closed for s in c.sessions), "connections are released when close() returns")

            async def canceller(victims):
                await asyncio.sleep(x.real("cancel", 0, 8))
                v = victims[x.choice("victim", list(range(len(victims))))]
                if not v.done():
                    if v is victims[0]:
                        events.append((c.loop.now, None))
                        called.append("owner")
                    v.cancel()
            tasks = [asyncio.ensure_future(owner())] if how != "unused" else []
            tasks += [asyncio.ensure_future(closer(i)) for i in range(closers)]
            if cancel:
                await asyncio.gather(canceller(tasks), *tasks, return_exceptions=True)
            else:
                await asyncio.gather(*tasks, return_exceptions=True)
            for t in tasks:
                if not t.cancelled() and t.exception() is not None:
                    raise t.exception()
            if w.failed is not None:
                events.append((w.failed, None))
            n = len(w.deletes)
            late = (c.loop.now, None)
            await h.close()
            events.append(late)
            await h.close(shutdown=True)
            x.check(w.submits <= (0 if named else 1), "the cluster is submitted once")
            w.judge(c, h, owns, events)
            await asyncio.sleep(1)
            left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            x.check(not left, "nothing goes on afterwards", info={"tasks": len(left)})
        c.run(main())
    x.check(not c.loop.errors, "nothing fails unnoticed", info={"errors": [repr(e.get("exception")) for e in c.loop.errors]})


class Interrupted(BaseException):
    pass


@unit("synchronous", params=[{"named": n, "k": 2, "interrupted": i, "full": 1} for n in (False, True) for i in (False, True)], thorough_params=[{"named": n, "k": 4, "interrupted": i} for n in (False, True) for i in (False, True)], reach=["stopped", "kept"])
def synchronous(x, named, k, interrupted, full=2):
    """a synchronous handle that is closed again and again"""
    owns = x.bool("owns")
    w = World(x, full)
    events, clients = [], []
    interrupt = x.real("interrupt", 0, 4) if interrupted else None
    with Client(x, w.script) as c:
        w.install(c)
        state = {"starting": True}

        class Future:
            def __init__(self, coro):
                self.task = asyncio.ensure_future(coro, loop=c.loop)

            def result(self):
                stop = lambda *a: c.loop.stop()
                self.task.add_done_callback(stop)
                timer = c.loop.call_at(interrupt, stop) if state["starting"] and interrupt is not None else None
                c.loop.run_forever()
                if timer is not None:
                    timer.cancel()
                if not self.task.done():
                    self.task.remove_done_callback(stop)
                    if state["starting"] and interrupt is not None:
                        events.append((c.loop.now, None))
                        raise KeyboardInterrupt()
                    x.check(False, "the call returns")
                if self.task.cancelled():
                    raise concurrent.futures.CancelledError()
                return self.task.result()

            def cancel(self):
                self.task.cancel()

        def threadsafe(coro, loop):
            return Future(coro)
        c.patch.set(asyncio, "run_coroutine_threadsafe", threadsafe)

        def client(cluster, **kw):
            n = {"closed": 0}

            async def close(*a, **k):
                n["closed"] += 1
            n["client"] = Stub(x, "client", _close=close)
            clients.append(n)
            return n["client"]
        c.patch.set(c.m, "Client", client)
        h = None
        held = []
        c.patch.set(c.m, "weakref", c.m.weakref)
        orig = c.m.GatewayCluster._init_internal

        def init(self, *a, **kw):
            held.append(self)
            return orig(self, *a, **kw)
        c.patch.set(c.m.GatewayCluster, "_init_internal", init)
        w.named = -1 if named else None
        try:
            kw = dict(address="http://host", shutdown_on_close=owns)
            h = c.m.GatewayCluster.from_name("c1", **kw) if named else c.m.GatewayCluster(**kw)
        except KeyboardInterrupt:
            x.reach("interrupted")
        except (c.m.GatewayClusterError, c.m.GatewayServerError, aiohttp.ClientError, concurrent.futures.CancelledError):
            pass
        state["starting"] = False
        if w.failed is not None:
            events.append((w.failed, None))
        if h is None:
            (h,) = held
            # the loop goes on in its own thread
            t = asyncio.ensure_future(asyncio.sleep(10), loop=c.loop)
            c.loop.drive(t)
        else:
            x.check(h.status == "running", "a new handle's cluster is running")
        for i in range(k if interrupt is None else 1):
            op = x.choice("op%d" % i, ["close", "keep", "shutdown", "exit", "del", "atexit", "gateway"] + (["client"] if h.status == "running" and not clients else []))
            before = len(w.deletes), h.status
            if op == "client":
                h.get_client()
                continue
            arg = {"keep": False, "shutdown": True}.get(op)
            events.append((c.loop.now + i, arg) if op != "gateway" else None)
            if op == "close":
                h.close()
            elif op == "keep":
                h.close(shutdown=False)
            elif op == "shutdown":
                h.shutdown()
            elif op == "exit":
                with h as r:
                    x.check(r is h, "the handle is its own context")
            elif op == "del":
                h.__del__()
            elif op == "gateway":
                h.gateway.close()
                events.pop()
                continue
            else:
                c.m.cleanup_lingering_clusters()
                if before[1] in ("closed", "closing"):
                    events.pop()
            if before[1] in ("closed", "closing"):
                x.check(len(w.deletes) == before[0], "closing again does nothing")
            w.closed(h)
        if any(e is not None for e in events):
            w.judge(c, h, owns, events)
            x.check(w.unclean or all(n["closed"] == 1 for n in clients), "the clients of the cluster are closed")
        else:
            x.check(not w.deletes and h.status == "running", "nothing is stopped without a close")
        held.clear()
        h = None
    x.check(not c.loop.errors, "nothing fails unnoticed", info={"errors": [repr(e.get("exception")) for e in c.loop.errors]})


@unit("lingering", reach=["failed"])
def lingering(x):
    """handles that are left at exit"""
    with Client(x, None) as c:
        c.patch.set(warnings, "warn", lambda m, *a, **kw: None)
        handles = []
        for i in range(3):
            h = Stub(x, "handle", asynchronous=x.bool("asynchronous%d" % i), fails=x.bool("fails%d" % i), closed=0)

            def close(h=h):
                h.closed += 1
                if h.fails:
                    x.reach("failed")
                    raise OSError("can't close")
            h.close = close
            handles.append(h)
        c.patch.set(c.m.GatewayCluster, "_instances", handles)
        c.m.cleanup_lingering_clusters()
        for h in handles:
            x.check(x.iff(h.closed == 1, x.no(h.asynchronous)) if h.closed <= 1 else False, "every synchronous handle is closed at exit")


def letters(x, name, n, alphabet):
    return x.str(name, n, n, alphabet=alphabet)


def port_digits(x, name, lengths=(2, 5)):
    n = x.choice(name + " digits", list(lengths))
    p = x.str(name, n, n, alphabet="0123456789")
    x.assume(p[0] != "0")
    if n == 5:
        x.assume(p < "65536")
    return p


def host(x, name):
    kind = x.choice(name + " form", ["name", "ipv4", "ipv6"])
    if kind == "name":
        return letters(x, name, 2, "abz0-.")
    if kind == "ipv4":
        d = letters(x, name, 2, "0123456789")
        return "10.0." + d[0] + "." + d[1]
    return x.choice(name + " ip", ["[::1]", "[fe80::a:1]"])


@unit("address", params=[{"form": f} for f in ("none", "int", "port", "template", "host", "url")], reach=["seen"])
def address(x, form):
    """the addresses derived from those given"""
    derived = form in ("none", "int", "port")
    hostname = host(x, "host") if derived else "gw"
    port = (port_digits(x, "port") if x.flip("with port") else None) if derived else "80"
    scheme = x.choice("scheme", ["http", "https"]) if port is None and derived else "http"
    path = "/" + letters(x, "path", 2, "ab/-_%20.:") if derived and x.flip("with path") else ""
    if path:
        x.assume(path[-1] != "/")
    slashes, public, how = x.choice("variant", [("", None, "argument"), ("/", "https://pub:99/base", "configuration"), ("//", "https://pub:99/base/", "argument")])
    base = scheme + "://" + hostname + (":" + port if port is not None else "") + path
    proxy = None
    netloc = hostname + ":" + (port if port is not None else {"http": "80", "https": "443"}[scheme])
    config = {}
    env = {}
    if form != "none":
        n = port_digits(x, "proxy port", (4,))
        if form == "int":
            proxy, netloc = x.integer(n), hostname + ":" + n
        elif form == "port":
            # a port given as a template
            proxy, netloc = "{PORT}", hostname + ":" + n
            env["PORT"] = n
            how = "configuration"
        elif form == "template":
            proxy, netloc = "tls://{HOST}:" + n, "other:" + n
            env["HOST"] = "other"
            how = "configuration"
        else:
            h2 = host(x, "proxy host")
            netloc = h2 + ":" + n
            proxy = netloc if form == "host" else x.choice("proxy scheme", ["gateway", "tls"]) + "://" + netloc + x.choice("proxy slash", ["", "/"])
    with Client(x, None) as c:
        import dask
        import dask_gateway.comm as comm
        import dask_gateway.utils as u
        c.patch.set(u.os, "environ", env)
        kw = {}
        values = {"gateway.address": base + slashes, "gateway.public-address": public, "gateway.proxy-address": proxy}
        if how == "configuration":
            config = values
        else:
            kw = {"address": values["gateway.address"], "public_address": public, "proxy_address": proxy}
        with dask.config.set(config):
            g = c.m.Gateway(asynchronous=True, **kw)
        x.check(g.address == base, "the gateway's address is the one given")
        x.check(g._public_address == ("https://pub:99/base" if public else base), "links use the public address")
        x.check(g.proxy_address == "gateway://" + netloc, "the proxy's address is the one given or that of the gateway", info={"form": form})
        name = letters(x, "name", 2, "aB0.-")
        # connecting
        c.patch.set(comm, "ensure_ip", lambda h: h)
        full = g.proxy_address + "/" + name
        bare = netloc[1:netloc.index("]")] if "]" in netloc else netloc[:netloc.index(":")]
        p = x.integer(netloc[len(bare) + (3 if "]" in netloc else 1):])
        b = comm.GatewayBackend()
        for a in (full, full[len("gateway://"):]):
            x.check(b.get_address_host(a) == bare, "the host is that of the proxy")
            hp = b.get_address_host_port(a)
            x.check(hp[0] == bare and x.eq(hp[1], p), "host and port are those of the proxy")
            x.check(b.resolve_address(a) == netloc + "/" + name, "resolving keeps the address")
        dialled, secured = [], []

        async def connect(h, port, **k):
            dialled.append((h, port))
            return Stub(x, "stream", start_tls=start_tls)

        async def start_tls(server_side, ssl_options=None, server_hostname=None):
            secured.append((server_side, ssl_options, server_hostname))
            return Stub(x, "tls stream", closed=lambda: False, error=None)
        import ssl
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.patch.set(comm.GatewayConnector, "client", Stub(x, "tcp client", connect=connect))
        c.patch.set(comm, "TLS", lambda stream, local, peer, deserialize=True: (local, peer))
        c.patch.set(comm, "get_stream_address", lambda s: "here")
        r = c.run(b.get_connector().connect(full[len("gateway://"):], ssl_context=ctx))
        x.check(len(dialled) == 1 and dialled[0][0] == bare and x.eq(dialled[0][1], p), "the proxy is connected to")
        x.check(len(secured) == 1 and secured[0][0] is False and secured[0][1] is ctx and secured[0][2] == "daskgateway-" + name, "the cluster is asked for by name, with the cluster's credentials")
        x.check(r[1] == full, "the connection's peer is the cluster")
        x.reach("seen")
