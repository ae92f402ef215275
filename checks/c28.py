"""C28: watched Kubernetes state is mirrored faithfully."""
import asyncio
import json

from kubelib import NS, FakeInformer, Log, World, api_exception
from symx.env import Clock, Patch, Stub, set_traits, unit
from symx.vloop import VLoop

TECHNIQUE = "symbolic execution of the real Informer and KubeBackend (Python source) against a model of the Kubernetes list and watch calls with symbolic object contents, times, chosen histories, interruptions and failures; z3"
LEVEL_NOTE = "Every history of 4 (thorough 5) creations, changes and deletions of 2 objects with symbolic contents, interruptions of the watch (end, 410, other error, broken connection, truncated line), failing lists and failing listeners; every history of 4 (thorough 5) reports of one cluster to the gateway with symbolic users, options and services, waiting clients with symbolic times, and failing or slow reads of its secret."
BOUNDS = "2 watched objects, 4 (thorough 5) events, 2 failing calls; 1 cluster with 4 (thorough 5) reports next to a constant one, 2 waiting clients, times on a grid of 1/8 s up to 30 s"
OUTSIDE = "real HTTP streaming below readline(); bookmark events (never requested); a cluster object whose user name is edited afterwards"
ASSUMPTIONS = ["the API server answers a watch with the changes after the given version, in order, or with error 410"]


class Gone(Exception):
    pass


class Line:
    """one line of the watch response"""
    def __init__(self, text):
        self.text = text

    def decode(self, *a):
        return self.text


class Api:
    """list and watch calls on one kind of object"""
    def __init__(self, x):
        self.x = x
        self.version = 5
        self.oldest = 0
        self.objects = {}
        self.log = []               # (version, type, object)
        self.how = None
        self.poison = False         # an error that only a new list ends
        self.failed = 0
        self.wake = None
        self.list_faults = 0
        self.known = None           # the version up to which the mirror was told
        self.lists = self.watches = 0
        self.on_report = lambda what, data: None
        self.client = Stub(x, "client", list_things=self.call, api_client=Stub(x, "api client", sanitize_for_serialization=lambda o: o))

    def change(self, typ, name, content):
        self.version += 1
        obj = {"metadata": {"namespace": NS, "name": name, "resourceVersion": "%d" % self.version}, "spec": {"v": content}}
        if typ == "DELETED":
            del self.objects[name]
        else:
            self.objects[name] = obj
        self.log.append((self.version, typ, obj))
        self.ring()

    def ring(self):
        if self.wake is not None and not self.wake.done():
            self.wake.set_result(None)

    def interrupt(self, how):
        self.how = how
        if how == "410":
            self.oldest = self.version
        self.ring()

    async def call(self, watch=False, _preload_content=True, resource_version=None, **kw):
        x = self.x
        self.on_report("call", None)
        await asyncio.sleep(0)
        x.check(kw.pop("label_selector", None) == "sel", "only the objects selected are watched")
        if not watch:
            self.lists += 1
            if self.lists > 40:
                x.missing("too many lists")
            if self.list_faults:
                self.list_faults -= 1
                raise api_exception(500)
            self.known = self.version
            self.poison = False
            self.failed = 0
            items = [self.objects[k] for k in sorted(self.objects)]
            self.on_report("list", items)
            return {"items": items, "metadata": {"resourceVersion": "%d" % self.version}}
        self.watches += 1
        if self.watches > 40:
            x.missing("too many watches")
        x.check(resource_version is not None, "the watch starts at a version")
        at = int(resource_version)
        x.check(at == self.known, "the watch continues after the last version seen", info={"asked": at, "seen": self.known})
        return Response(self, at)


class Response:
    def __init__(self, api, at):
        self.api, self.at, self.content, self.closed = api, at, self, False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.closed = True

    def line(self, v):
        if self.api.x.symbolic:
            from symx.models import m_dumps
            return Line(m_dumps(v))
        return Line(json.dumps(v) + "\n")

    async def readline(self):
        api = self.api
        api.on_report("call", None)
        await asyncio.sleep(0)
        while True:
            if self.at < api.oldest or api.poison:
                api.failed += 1
                api.x.check(api.failed < 5, "a refused watch is replaced by a new list")
            if api.poison:
                return self.line({"type": "ERROR", "object": {"kind": "Status", "code": 500, "message": "etcdserver: mvcc: required revision has been compacted"}})
            if self.at < api.oldest:
                return self.line({"type": "ERROR", "object": {"kind": "Status", "code": 410, "message": "too old resource version"}})
            for version, typ, obj in api.log:
                if version > self.at:
                    self.at = api.known = version
                    api.on_report("event", (typ, obj))
                    return self.line({"type": typ, "object": obj})
            how, api.how = api.how, None
            if how == "end":
                return Line("")
            if how == "error":
                api.poison = True
                continue
            if how == "broken":
                raise OSError("broken")
            if how == "junk":
                return Line('{"type": "ADDED", "obj')
            api.wake = asyncio.get_running_loop().create_future()
            await api.wake


def same(x, a, b):
    if a is None or b is None:
        return a is None and b is None
    return x.all(a["metadata"]["name"] == b["metadata"]["name"], a["metadata"]["resourceVersion"] == b["metadata"]["resourceVersion"], a["spec"]["v"] == b["spec"]["v"])


@unit("mirror", params=[{"steps": 4, "first": f, "fails": 0} for f in (0, 1)] + [{"steps": 3, "first": 2, "fails": 0}, {"steps": 3, "first": 2, "fails": 1}, {"steps": 2, "first": 1, "fails": 2}], thorough_params=[{"steps": 5, "first": f, "fails": 0} for f in (0, 1, 2)] + [{"steps": 4, "first": 1, "fails": 2}], reach=["quiet", "watched"], time_limit=800)
def mirror(x, steps, first, fails):
    from dask_gateway_server.backends.kubernetes.utils import Informer
    loop = VLoop(x)
    asyncio.set_event_loop(loop)
    api = Api(x)
    names = ["a", "b"]
    for n in names[:first]:
        api.change("ADDED", n, x.int("init_" + n, 0, 1000))
    m = {}                     # what was reported last
    expect = []                # notifications due
    left = [fails]

    def report(what, data):
        x.check(not expect, "every report is notified", info={"missing": len(expect)})
        if what == "list":
            now = {o["metadata"]["name"]: o for o in data}
            for k in [k for k in m if k not in now]:
                expect.append(("delete", k, m.pop(k), None))
            for k, o in now.items():
                expect.append(("update", k, o, m.get(k)))
                m[k] = o
        elif what == "event":
            typ, o = data
            x.reach("watched")
            k = o["metadata"]["name"]
            if typ == "DELETED":
                m.pop(k, None)
                expect.append(("delete", k, o, None))
            else:
                expect.append(("update", k, o, m.get(k)))
                m[k] = o

    def notified(kind, obj, old):
        k = obj["metadata"]["name"]
        hit = [e for e in expect if e[:2] == (kind, k)]
        x.check(len(hit) == 1, "every report is notified once")
        expect.remove(hit[0])
        if kind == "update":
            x.check(same(x, obj, hit[0][2]), "the new state is notified")
            x.check(same(x, old, hit[0][3]), "the former state is notified")
            x.check(same(x, inf.get(NS + "." + k), obj), "the mirror is changed before the notification")
        else:
            x.check(inf.get(NS + "." + k) is None, "the mirror is changed before the notification")
        if left[0] and x.flip("listener"):
            left[0] -= 1
            raise Gone("listener")
    api.on_report = report
    inf = Informer(name="things", client=api.client, method="list_things", method_kwargs={"label_selector": "sel"}, log=Log(), on_update=lambda obj, old=None: notified("update", obj, old), on_delete=lambda obj: notified("delete", obj, None))
    x.check(inf.get("nothing", 7) == 7 if hasattr(inf, "cache") else True, "get has a default")

    def agree():
        want = {NS + "." + k: o for k, o in api.objects.items()}
        for n in names:
            x.check(same(x, inf.get(NS + "." + n), want.get(NS + "." + n)), "the mirror equals the last reported state")
        x.check(inf.get("other.a") is None and inf.get("a", 3) == 3, "nothing else is in the mirror")

    async def main():
        if fails:
            api.list_faults = x.choice("list faults", [0, 1])
            left[0] -= api.list_faults
        await inf.start()
        x.check(not expect, "the mirror is filled once started")
        agree()
        await inf.start()
        hows = ["end", "410", "error", "broken", "junk"]
        for i in range(steps):
            ev = x.choice("event%d" % i, ["add " + n for n in names if n not in api.objects][:1] + ["modify " + n for n in api.objects][:1] + ["delete " + n for n in sorted(api.objects)] + ["run"] + hows)
            if ev in hows:
                if fails and left[0] and ev != "end" and x.flip("listfault%d" % i):
                    left[0] -= 1
                    api.list_faults += 1
                api.interrupt(ev)
                if ev == "410":
                    api.how = "end"
            elif ev == "run":
                await asyncio.sleep(1.0)
                agree()
            else:
                what, n = ev.split()
                if what == "delete":
                    api.change("DELETED", n, api.objects[n]["spec"]["v"])
                else:
                    api.change("ADDED" if what == "add" else "MODIFIED", n, x.int("v%d" % i, 0, 1000))
        await asyncio.sleep(1.0)
        x.check(not expect, "every report is notified")
        agree()
        # a change still comes through
        api.change("ADDED", "b" if "b" not in api.objects else "a", x.int("last", 0, 1000)) if len(api.objects) < 2 else api.change("MODIFIED", "a", x.int("last", 0, 1000))
        await asyncio.sleep(1.0)
        agree()
        await inf.stop()
        k = api.lists + api.watches
        api.interrupt("end")
        await asyncio.sleep(1.0)
        x.check(api.lists + api.watches == k, "a stopped mirror stops watching")
        x.reach("quiet")
    try:
        loop.drive(main())
    finally:
        loop.shutdown()


# -- the gateway's view

PHASES = ("Pending", "Running", "Stopped", "Failed")


def cluster(name, phase, user, option, service, secret=True):
    st = {}
    if phase is not None:
        st["phase"] = phase
    if secret:
        st["credentials"] = "dask-credentials-" + name
    if service is not None:
        st["service"] = service
    if phase in ("Stopped", "Failed"):
        st["completionTime"] = "2024-03-01T00:00:10Z"
    return {"metadata": {"namespace": NS, "name": name, "creationTimestamp": "2024-02-29T00:00:01Z"}, "spec": {"username": user, "options": {"o": option}, "config": {"cluster_max_workers": option}}, "status": st}


class Gateway:
    def __init__(self, x):
        self.x, self.patch = x, Patch()

    def __enter__(self):
        import kubernetes_asyncio.client as kc
        import kubernetes_asyncio.config as kconf
        import dask_gateway_server.backends.base as base
        import dask_gateway_server.backends.kubernetes.backend as m
        x, p = self.x, self.patch
        self.loop = VLoop(x, max_steps=20000)
        asyncio.set_event_loop(self.loop)
        Clock.mono = lambda: self.loop.now
        self.w = World(x)
        self.reads = 0
        self.faults = []
        self.delay = 0.0
        p.set(kconf, "load_incluster_config", lambda *a, **k: None)
        p.set(kc, "ApiClient", lambda *a, **k: Stub(x, "api client"))
        p.set(kc, "CoreV1Api", lambda *a, **k: Stub(x, "core client", read_namespaced_secret=self.read))
        p.set(kc, "CustomObjectsApi", lambda *a, **k: Stub(x, "custom client", list_cluster_custom_object=None))
        p.set(m, "Informer", FakeInformer)
        p.set(base.aiohttp, "ClientSession", lambda *a, **k: Stub(x, "session"))
        self.b = m.KubeBackend(log=Log())
        set_traits(self.b, gateway_instance="inst")
        return self

    async def read(self, name, ns, **kw):
        from base64 import b64encode as e
        x = self.x
        fault = self.faults.pop(0) if self.faults else None
        self.reads += 1
        await asyncio.sleep(self.delay)
        if fault == "refused":
            raise api_exception(500)
        if fault == "broken":
            raise OSError("broken")
        x.check(ns == NS and name.startswith("dask-credentials-"), "the secret on record is read")
        n = name[len("dask-credentials-"):].encode()
        return Stub(x, "secret", data={"dask.crt": e(b"CRT" + n).decode(), "dask.pem": e(b"KEY" + n).decode(), "api-token": e(b"TOK" + n).decode()})

    def report(self, obj):
        self.w.informers["cluster"].update("%s.%s" % (NS, obj["metadata"]["name"]), obj)

    def vanish(self, name):
        self.w.informers["cluster"].delete("%s.%s" % (NS, name))

    def __exit__(self, *a):
        self.patch.undo()
        Clock.mono = None
        self.loop.shutdown()


def judge_view(x, c, obj, secret):
    from dask_gateway_server.models import ClusterStatus as CS
    st = obj["status"]
    phase = st.get("phase", "Pending")
    x.check(c.name == NS + "." + obj["metadata"]["name"], "the name is kept")
    x.check(c.username == obj["spec"]["username"], "the user is kept")
    x.check(c.status == CS.from_name(phase), "the status is the newest reported", info={"phase": phase})
    x.check(x.all(c.options["o"] == obj["spec"]["options"]["o"], c.config["cluster_max_workers"] == obj["spec"]["config"]["cluster_max_workers"]), "options and configuration are the newest reported")
    x.check(c.start_time == 1709164801000, "the start time is kept")
    x.check(c.stop_time == (1709251210000 if phase in ("Stopped", "Failed") else None), "the stop time is kept")
    service = st.get("service")
    if phase == "Running" and service is not None:
        x.check(x.eq(c.scheduler_address, "tls://" + service + ".ns:8786"), "the scheduler's address is known")
        x.check(x.eq(c.dashboard_address, "http://" + service + ".ns:8787"), "the dashboard's address is known")
        x.check(x.eq(c.api_address, "http://" + service + ".ns:8788"), "the scheduler's API is known")
    elif phase != "Running":
        x.check(x.all(c.scheduler_address == "", c.dashboard_address == "", c.api_address == ""), "only a running cluster has addresses")
    if secret:
        n = obj["metadata"]["name"].encode()
        x.check((c.tls_cert, c.tls_key, c.token) == (b"CRT" + n, b"KEY" + n, "TOK" + n.decode()), "the credentials are those of the cluster")


def any_report(x, i, user):
    phase = x.choice("phase%d" % i, list(PHASES) + ([None] if i == 0 else []))
    return cluster("c1", phase, user, x.int("option%d" % i, 0, 100), x.str("service%d" % i, 2, 2, alphabet="abcdefghijklmnopqrstuvwxyz-0123456789") if phase == "Running" else None, secret=phase is not None and x.flip("secret%d" % i))


@unit("view", params=[{"steps": 2}], thorough_params=[{"steps": 3}], reach=["seen", "gone"], time_limit=800)
def view(x, steps):
    """the gateway's view follows the reports"""
    user = x.str("user", 2, 2)
    with Gateway(x) as g:
        other = cluster("c2", "Running", "ab", 5, "dask-c2")

        async def main():
            g.w.initial = lambda kind: {NS + ".c2": other}
            await g.b.setup(None)
            await asyncio.sleep(1.0)
            obj = None
            cert = False
            for i in range(steps):
                ev = x.choice("event%d" % i, ["report"] + (["vanish"] if obj is not None else []))
                if ev == "report":
                    obj = any_report(x, i, user)
                    g.report(obj)
                else:
                    g.vanish("c1")
                    obj = None
                    cert = False
                if i < steps - 1 and not x.flip("settle%d" % i):
                    continue
                if obj is not None and obj["status"].get("credentials") and obj["status"].get("phase") in ("Pending", "Running"):
                    cert = True
                await asyncio.sleep(1.0)
                c = await g.b.get_cluster(NS + ".c1")
                x.check((c is None) == (obj is None), "a cluster is known as long as its object exists")
                mine = await g.b.list_clusters(username=user)
                running = await g.b.list_clusters()
                from dask_gateway_server.models import ClusterStatus as CS
                done = await g.b.list_clusters(username=user, statuses=[CS.STOPPED, CS.FAILED])
                has = lambda l, n: bool([q for q in l if q.name == NS + "." + n])
                if obj is None:
                    x.check(not has(mine, "c1") and not has(running, "c1") and not has(done, "c1"), "a vanished cluster is not listed")
                    x.reach("gone")
                else:
                    judge_view(x, c, obj, cert)
                    alive = obj["status"].get("phase", "Pending") in ("Pending", "Running")
                    x.check(has(mine, "c1") == alive and has(running, "c1") == alive, "active clusters are listed")
                    x.check(has(done, "c1") == (not alive), "finished clusters are listed on request")
                    x.reach("seen")
                x.check(x.iff(has(mine, "c2"), user == "ab"), "clusters are listed for their users")
                judge_view(x, await g.b.get_cluster(NS + ".c2"), other, True)
        g.loop.drive(main())


@unit("secret", params=[{"steps": 2, "faults": 1}], thorough_params=[{"steps": 2, "faults": 2}, {"steps": 3, "faults": 1}], reach=["settled"], time_limit=800)
def secret(x, steps, faults):
    """reads of the secret that are slow or fail"""
    with Gateway(x) as g:
        async def main():
            g.w.initial = lambda kind: {}
            await g.b.setup(None)
            g.delay = x.time("delay", 0, 8)
            g.faults = [x.choice("fault%d" % i, [None, "refused", "broken"]) for i in range(faults)]
            obj = None
            for i in range(steps):
                ev = x.choice("event%d" % i, ["Pending", "Running", "Failed"] + (["vanish"] if obj is not None else []))
                if ev == "vanish":
                    g.vanish("c1")
                    obj = None
                else:
                    obj = cluster("c1", ev, "a", x.int("option%d" % i, 0, 100), "dask-c1" if ev == "Running" else None)
                    g.report(obj)
                if i < steps - 1:
                    await asyncio.sleep(x.time("gap%d" % i, 0, 8))
            await asyncio.sleep(60.0)
            c = await g.b.get_cluster(NS + ".c1")
            x.check((c is None) == (obj is None), "a cluster is known as long as its object exists")
            if obj is not None:
                judge_view(x, c, obj, obj["status"]["phase"] != "Failed")
            x.reach("settled")
        g.loop.drive(main())


@unit("wait", params=[{"steps": 2}], thorough_params=[{"steps": 3}], reach=["released", "patience"], time_limit=800)
def wait(x, steps):
    """clients waiting for a cluster"""
    with Gateway(x) as g:
        got = {}

        async def client(i):
            t0 = g.loop.now
            c = await g.b.get_cluster(NS + ".c1", wait=True)
            got[i] = (t0, g.loop.now, c)

        async def main():
            g.w.initial = lambda kind: {}
            await g.b.setup(None)
            ready = []          # when the cluster became ready, failed, or vanished
            obj = None
            tasks = []
            for i in range(steps):
                if x.flip("client%d" % i):
                    tasks.append(asyncio.ensure_future(client(i)))
                    if x.flip("impatient%d" % i):
                        await asyncio.sleep(0.0)
                        tasks.pop().cancel()
                await asyncio.sleep(x.time("gap%d" % i, 0, 30))
                now = obj["status"]["phase"] if obj is not None else None
                ev = x.choice("event%d" % i, {None: ["Pending", "Running", "Stopped"], "Pending": ["Pending", "Running", "Failed", "vanish"], "Running": ["Stopped", "vanish"]}.get(now, ["vanish"]))
                if ev == "vanish":
                    g.vanish("c1")
                    obj = None
                else:
                    obj = cluster("c1", ev, "a", 1, "dask-c1" if ev == "Running" else None)
                    g.report(obj)
                await asyncio.sleep(0.0)
                await asyncio.sleep(0.125)
                ready.append((g.loop.now - 0.125, ev))
            last = asyncio.ensure_future(client(steps))
            await asyncio.sleep(30.0)
            x.check(last.done() and not [t for t in tasks if not t.done()], "no client waits for ever")
            for i, (t0, t1, c) in got.items():
                # the reports the client could have been released by
                done = None
                state = "none"
                for k, (at, ev) in enumerate(ready):
                    if k < i:
                        state = ev
                if state in ("Running", "Failed", "Stopped"):
                    done = t0
                else:
                    for k, (at, ev) in enumerate(ready):
                        if k >= i and ev != "Pending" and done is None:
                            done = at
                end = t0 + 20.0
                if done is None:
                    x.check(x.eq(t1, end), "a client waits 20 seconds")
                    x.reach("patience")
                else:
                    x.check(x.eq(t1, x.min(done, end)), "a waiting client is released when the cluster is ready, failed or gone")
                    x.reach("released")
            t0, t1, c = got[steps]
            x.check((c is None) == (obj is None), "the newest state is returned")
            if obj is not None:
                judge_view(x, c, obj, False)
        g.loop.drive(main())
