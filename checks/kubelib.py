"""A Kubernetes API server for the controller, as far as dask-gateway uses it."""
import asyncio
import copy

from symx.env import Clock, Patch, Stub, set_traits
from symx.vloop import VLoop

NS = "ns"


class Log:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


def api_exception(status, body=None):
    from kubernetes_asyncio.client.rest import ApiException
    exc = ApiException(status=status, reason="r")
    exc.body = body
    return exc


class FakeInformer:
    """the controller's view; events reach it when the harness delivers them"""
    def __init__(self, parent=None, name=None, client=None, method=None, method_kwargs=None, on_update=None, on_delete=None, **kw):
        self.name, self.on_update, self.on_delete, self.cache = name, on_update, on_delete, {}
        World.current.informers[name] = self
        self.start_hook = World.current.initial

    async def start(self):
        for key, obj in list(self.start_hook(self.name).items()):
            self.cache[key] = obj
            self.on_update(obj, old=None)

    async def stop(self):
        pass

    def get(self, key, default=None):
        return self.cache.get(key, default)

    def update(self, key, obj):
        old = self.cache.get(key)
        self.cache[key] = obj
        self.on_update(obj, old=old)

    def delete(self, key):
        obj = self.cache.pop(key, None)
        if obj is not None:
            self.on_delete(obj)


class Meta:
    def __init__(self, obj):
        self.obj = obj
        self.metadata = Stub(World.current.x, "metadata", name=obj["metadata"]["name"])


class World:
    """the server's objects, and the events not yet seen by the controller"""
    current = None

    def __init__(self, x, deliver="later"):
        self.x = x
        self.objects = {}          # (kind, name) -> object
        self.events = []           # (kind, "update"/"delete", name, object)
        self.calls = []            # (operation, kind, name)
        self.fault = None          # fault(operation, kind, name) -> exception or None
        self.informers = {}
        self.latency = lambda op, kind, name: 0
        self.n = 0
        self.patches = []
        self.on_call = None
        World.current = self

    # -- the server
    def put(self, kind, obj, event=True):
        name = obj["metadata"]["name"]
        obj["metadata"].setdefault("namespace", NS)
        obj["metadata"].setdefault("uid", "uid-%s-%s" % (kind, name))
        self.objects[kind, name] = obj
        if event:
            self.events.append((kind, "update", name, copy_(obj)))

    def drop(self, kind, name):
        """delete an object and what it owns"""
        obj = self.objects.pop((kind, name), None)
        if obj is None:
            return
        self.events.append((kind, "delete", name, None))
        uid = obj["metadata"]["uid"]
        for (k, n), o in list(self.objects.items()):
            if any(r.get("uid") == uid for r in o["metadata"].get("ownerReferences", [])):
                self.drop(k, n)

    def deliver(self, i=0):
        """the controller's watch sees the next event of a kind"""
        kind, what, name, obj = self.events.pop(i)
        inf = self.informers.get(kind)
        if inf is None:
            return
        if what == "update":
            inf.update("%s.%s" % (NS, name), obj)
        else:
            inf.delete("%s.%s" % (NS, name))

    def deliver_all(self):
        while self.events:
            self.deliver()

    def initial(self, kind):
        """the list result when the controller starts"""
        self.events = [e for e in self.events if e[0] != kind]
        return {"%s.%s" % (NS, n): copy_(o) for (k, n), o in self.objects.items() if k == kind}

    # -- the API
    async def call(self, op, kind, name, do):
        exc = self.fault(op, kind, name) if self.fault is not None else None
        await asyncio.sleep(self.latency(op, kind, name))
        self.calls.append((op, kind, name, exc))
        if self.on_call is not None:
            self.on_call(op, kind, name, exc)
        if exc is not None and not getattr(exc, "after", False):
            raise exc
        r = do()
        if exc is not None:
            raise exc
        return r

    def create(self, kind, ns, obj):
        meta = obj["metadata"]
        name = meta.get("name")
        if name is None:
            self.n += 1
            name = "%s%d" % (meta["generateName"], self.n)

        def do():
            if ns != NS:
                raise api_exception(404)
            if (kind, name) in self.objects:
                raise api_exception(409, '{"message": "exists"}')
            new = copy_(obj)
            new["metadata"]["name"] = name
            if kind == "pod":
                new["status"] = {"phase": "Pending"}
            self.put(kind, new)
            return Meta(copy_(new))
        return self.call("create", kind, name, do)

    def delete(self, kind, ns, name):
        def do():
            if ns != NS or (kind, name) not in self.objects:
                raise api_exception(404, '{"message": "missing"}')
            self.drop(kind, name)
        return self.call("delete", kind, name, do)

    def core(self):
        return Stub(self.x, "core client",
                    create_namespaced_pod=lambda ns, o, **k: self.create("pod", ns, o),
                    create_namespaced_secret=lambda ns, o, **k: self.create("secret", ns, o),
                    create_namespaced_service=lambda ns, o, **k: self.create("service", ns, o),
                    delete_namespaced_pod=lambda n, ns, **k: self.delete("pod", ns, n),
                    delete_namespaced_secret=lambda n, ns, **k: self.delete("secret", ns, n),
                    delete_namespaced_service=lambda n, ns, **k: self.delete("service", ns, n),
                    list_pod_for_all_namespaces=None, list_endpoints_for_all_namespaces=None)

    def custom(self):
        kinds = {"ingressroutes": "ingressroute", "ingressroutetcps": "ingressroutetcp", "daskclusters": "cluster"}

        def patch(group, version, ns, plural, name, body, **kw):
            def do():
                c = self.objects.get(("cluster", name))
                if c is None or ns != NS:
                    raise api_exception(404)
                for p in body:
                    if p["op"] != "add" or p["path"] != "/status":
                        self.x.missing("patch %s" % p["path"])
                    c = dict(c, status=copy_(p["value"]))
                self.patches.append(c["status"])
                self.put("cluster", c)
            return self.call("patch", kinds[plural], name, do)
        return Stub(self.x, "custom client",
                    create_namespaced_custom_object=lambda g, v, ns, pl, o, **k: self.create(kinds[pl], ns, o),
                    delete_namespaced_custom_object=lambda g, v, ns, pl, n, **k: self.delete(kinds[pl], ns, n),
                    patch_namespaced_custom_object_status=patch, list_cluster_custom_object=None)


def copy_(o):
    if isinstance(o, dict):
        return {k: copy_(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [copy_(v) for v in o]
    return o


def cluster_object(name="c1", replicas=None, active=None, status=None, **config):
    from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig
    conf = KubeClusterConfig().to_dict()
    conf.update(config)
    spec = {"username": "alice", "options": {}, "config": conf}
    if replicas is not None:
        spec["replicas"] = replicas
    if active is not None:
        spec["active"] = active
    o = {"apiVersion": "gateway.dask.org/v1alpha1", "kind": "DaskCluster", "metadata": {"name": name, "namespace": NS, "uid": "uid-" + name, "labels": {"gateway.dask.org/cluster": name, "gateway.dask.org/instance": "inst"}}, "spec": spec}
    if status is not None:
        o["status"] = status
    return o


def pod_object(name, component, state, cluster="c1", owner=None):
    """a pod in one of the situations the API reports"""
    cs = lambda **s: [{"name": component, "state": s}]
    status = {
        "unscheduled": {"phase": "Pending"},
        "starting": {"phase": "Pending", "containerStatuses": cs(waiting={"reason": "ContainerCreating"})},
        "running": {"phase": "Running", "containerStatuses": cs(running={"startedAt": "t"})},
        "done": {"phase": "Running", "containerStatuses": cs(terminated={"exitCode": 0})},
        "crashed": {"phase": "Running", "containerStatuses": cs(terminated={"exitCode": 1})},
        "restarting": {"phase": "Running", "containerStatuses": cs(waiting={"reason": "CrashLoopBackOff"})},
        "succeeded": {"phase": "Succeeded", "containerStatuses": cs(terminated={"exitCode": 0})},
        "failed": {"phase": "Failed", "containerStatuses": cs(terminated={"exitCode": 3})},
        "evicted": {"phase": "Failed", "reason": "Evicted"},
        "unknown": {"phase": "Unknown"},
    }[state]
    m = {"name": name, "namespace": NS, "uid": "uid-pod-" + name, "labels": {"gateway.dask.org/cluster": cluster, "gateway.dask.org/instance": "inst", "app.kubernetes.io/component": component}}
    if owner:
        m["ownerReferences"] = [{"uid": owner}]
    return {"apiVersion": "v1", "kind": "Pod", "metadata": m, "spec": {}, "status": copy_(status)}


class Controller:
    """a running controller on a fresh virtual-time loop"""
    def __init__(self, x, world, **traits):
        self.x, self.w, self.traits, self.patch = x, world, traits, Patch()

    def __enter__(self):
        import kubernetes_asyncio.client as kc
        import kubernetes_asyncio.config as kconf
        from aiohttp import web
        import dask_gateway_server.backends.kubernetes.controller as m
        x = self.x
        self.loop = VLoop(x, max_steps=20000)
        self.loop.add_signal_handler = lambda *a: None
        asyncio.set_event_loop(self.loop)
        Clock.mono = lambda: self.loop.now
        p = self.patch
        p.set(kconf, "load_incluster_config", lambda *a, **k: None)
        p.set(kc, "ApiClient", lambda *a, **k: Stub(x, "api client", sanitize_for_serialization=lambda o: o.obj))
        p.set(kc, "CoreV1Api", lambda *a, **k: self.w.core())
        p.set(kc, "CustomObjectsApi", lambda *a, **k: self.w.custom())
        p.set(m, "Informer", FakeInformer)
        p.set(m, "new_keypair", lambda n: (b"CERT-" + n.encode(), b"KEY-" + n.encode()))

        class Nothing:
            def __init__(self, *a, **k):
                pass

            async def setup(self):
                pass
            start = cleanup = setup
        p.set(web, "AppRunner", Nothing)
        p.set(web, "TCPSite", Nothing)
        return self

    async def start(self):
        import dask_gateway_server.backends.kubernetes.controller as m
        World.current = self.w
        c = m.KubeController()
        t = dict(gateway_instance="inst", parallelism=2, api_url="http://gw/api", address="h:80", completed_cluster_cleanup_period=600.0, completed_cluster_max_age=86400.0,
                 backoff_base_delay=0.125, backoff_max_delay=300.0, k8s_api_rate_limit=1000, k8s_api_rate_limit_burst=100000, proxy_prefix="", log=Log())
        t.update(self.traits)
        set_traits(c, **t)
        c.app = None
        await c.setup()
        self.c = c
        return c

    async def stop(self):
        """the process is killed"""
        for t in list(self.c.reconcilers) + list(self.c.task_pool.tasks):
            t.cancel()
        await asyncio.gather(*self.c.reconcilers, return_exceptions=True)
        await asyncio.sleep(0.0)
        self.w.informers.clear()

    def run(self, coro):
        return self.loop.drive(coro)

    def __exit__(self, *a):
        self.patch.undo()
        Clock.mono = None
        self.loop.shutdown()
