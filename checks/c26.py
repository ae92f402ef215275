"""C26: the Kubernetes controller converges to the requested number of workers."""
import asyncio

from kubelib import NS, Controller, Log, World, api_exception, cluster_object, pod_object
from symx.env import Stub, unit

TECHNIQUE = "symbolic execution of the real Kubernetes controller (Python source) against a model of the Kubernetes API with symbolic replica counts, chosen pod states, faults and event orders; z3 over integers"
LEVEL_NOTE = "One reconciliation from any set of up to 3 (thorough 5) worker pods in any state towards any request of 0 to 5; every history of up to 4 (thorough 5) request changes, pod changes, external deletions and event deliveries in any order, with up to 3 (thorough 4) failing API calls."
BOUNDS = "3 (thorough 5) pods of any state in one step, requests of 0..5; histories of 4 (thorough 5) events with requests of 0..3; 3 (thorough 4) failing calls"
OUTSIDE = "expiry of expectations after 10 minutes without the expected events; API calls that fail although they took effect; workers whose container crashed or restarts when the controller starts"
ASSUMPTIONS = ["the API server delivers the events of each kind of object in order", "the phases and container statuses of pods are those documented by Kubernetes: none before a pod is scheduled, possibly none after an eviction"]

PENDING = ("unscheduled", "starting")
LIVE = PENDING + ("running",)
OVER = ("done", "succeeded", "failed", "evicted")
STATES = LIVE + OVER

RUNNING = {"phase": "Running", "credentials": "dask-credentials-c1", "schedulerPod": "dask-scheduler-c1", "service": "dask-c1", "ingressroute": "dask-c1", "ingressroutetcp": "dask-c1"}


def world(x, replicas, states):
    w = World(x)
    w.put("cluster", cluster_object(replicas=replicas, status=dict(RUNNING)), event=False)
    w.put("pod", pod_object("dask-scheduler-c1", "dask-scheduler", "running"), event=False)
    for i, s in enumerate(states):
        w.put("pod", pod_object("w%d" % i, "dask-worker", s, owner="uid-pod-dask-scheduler-c1"), event=False)
    return w


def made(w, since=0):
    return [c for c in w.calls[since:] if c[0] == "create"]


def removed(w, since=0):
    return [c[2] for c in w.calls[since:] if c[0] == "delete"]


def judge(x, w, states, replicas, since=0):
    """one reconciliation of workers in `states` (name -> state) towards replicas, without faults"""
    live = [n for n, s in states.items() if s in LIVE]
    young = [n for n, s in states.items() if s in PENDING]
    over = [n for n, s in states.items() if s in OVER]
    new, gone = made(w, since), removed(w, since)
    x.check(len(gone) == len(set(gone)), "no pod is deleted twice")
    x.check(all(c[1] == "pod" and c[2].startswith("dask-worker-c1-") for c in new), "worker pods are created")
    x.check(x.eq(len(new), x.max(0, replicas - len(live))), "exactly the missing pods are created")
    x.check(not [n for n in gone if states.get(n) not in PENDING + OVER], "no running worker is deleted")
    x.check(all(n in gone for n in over), "finished pods are removed")
    surplus = x.max(0, len(live) - replicas)
    x.check(x.eq(len([n for n in gone if n in young]), x.min(surplus, len(young))), "exactly the surplus of pods that have not started is deleted")
    if new:
        x.reach("created")
    if [n for n in gone if n in young]:
        x.reach("deleted")


@unit("step", params=[{"n": n} for n in (0, 1, 2, 3)], thorough_params=[{"n": 4}, {"n": 5}], reach=["settled"])
def step(x, n):
    """a controller that starts with any workers and any request"""
    replicas = x.int("replicas", 0, 5)
    order = list(STATES)
    states = []
    for i in range(n):
        states.append(x.choice("pod%d" % i, order))
        order = order[order.index(states[-1]):]
    w = world(x, replicas, states)
    named = {"w%d" % i: s for i, s in enumerate(states)}

    async def main():
        await r.start()
        await asyncio.sleep(5.0)
        judge(x, w, named, replicas)
        x.check(not w.patches, "the cluster stays as it is")
        w.deliver_all()
        k = len(w.calls)
        await asyncio.sleep(5.0)
        now = {n_: state_of(o) for (kind, n_), o in w.objects.items() if kind == "pod" and n_ != "dask-scheduler-c1"}
        live = [v for v in now.values() if v in LIVE]
        x.check(len(w.calls) == k, "nothing more is done")
        x.check(x.eq(len(live), x.max(replicas, len([s for s in live if s == "running"]))), "there are as many workers as requested")
        x.reach("settled")
    with Controller(x, w) as r:
        r.run(main())


@unit("gone", params=[{"n": 1}, {"n": 2}], thorough_params=[{"n": 3}], reach=["rested"])
def gone(x, n):
    """worker pods that are gone before the controller hears of it"""
    replicas = x.int("replicas", 0, 2)
    states = [x.choice("pod%d" % i, ["starting", "succeeded", "evicted"]) for i in range(n)]
    w = world(x, replicas, states)

    async def main():
        start = w.initial

        def initial(kind):
            r = start(kind)
            if kind == "pod":
                for i in range(n):
                    w.drop("pod", "w%d" % i)
            return r
        w.initial = initial
        await r.start()
        await asyncio.sleep(60.0)
        k = len(w.calls)
        await asyncio.sleep(1000.0)
        x.check(len(w.calls) == k, "deleting a pod that is gone is not repeated")
        w.deliver_all()
        await asyncio.sleep(60.0)
        w.deliver_all()
        now = [n_ for (kind, n_), o in w.objects.items() if kind == "pod" and n_ != "dask-scheduler-c1"]
        x.check(x.eq(len(now), replicas), "there are as many workers as requested in the end")
        x.reach("rested")
    with Controller(x, w) as r:
        r.run(main())


def state_of(o):
    st = o["status"]
    cs = st.get("containerStatuses")
    if st["phase"] == "Pending":
        return "starting" if cs else "unscheduled"
    if st["phase"] == "Running":
        s = cs[0]["state"]
        return "running" if "running" in s else "done"
    return "failed"


def faults(x, n):
    left = [n]

    def fault(op, kind, name):
        if kind != "pod" or left[0] <= 0:
            return None
        left[0] -= 1
        i = n - left[0]
        how = x.choice("fault%d" % i, ["none", "refused", "broken"])
        if how == "none":
            return None
        if how == "broken":
            return OSError("broken")
        return api_exception(403 if op == "create" else 500, x.choice("body%d" % i, ['{"message": "quota"}', "html"]) if op == "create" else None)
    return fault


def history(x, steps, first, nfaults, events, slow=0.0):
    w = world(x, first, ())
    if slow:
        w.latency = lambda op, kind, name: slow if op == "create" else 0
    st = {"asked": set()}

    def view():
        return {n.split(".", 1)[1]: state_of(o) for n, o in w.informers["pod"].cache.items() if "dask-scheduler" not in n}

    def server():
        return {n: state_of(o) for (kind, n), o in w.objects.items() if kind == "pod" and n != "dask-scheduler-c1"}

    def wanted():
        return w.informers["cluster"].cache[NS + ".c1"]["spec"]["replicas"]

    def on_call(op, kind, name, exc):
        if kind != "pod":
            return
        if op == "create" and exc is None:
            x.check(len([v for v in server().values() if v in LIVE]) < wanted(), "no more workers than requested are created")
            x.reach("create")
        elif op == "delete":
            v = view()
            x.check(v.get(name) not in ("running",), "no running worker is deleted")
            x.check(name in v and name != "dask-scheduler-c1", "only known worker pods are deleted")
            if v[name] in PENDING:
                x.check(len([n for n, q in v.items() if q in LIVE and n not in st["asked"]]) > wanted(), "no more than the surplus is deleted")
                if exc is None:
                    st["asked"].add(name)
    w.on_call = on_call
    w.fault = faults(x, nfaults)

    async def settle():
        for _ in range(12):
            w.deliver_all()
            await asyncio.sleep(20.0)
            if not w.events:
                break

    async def main():
        await r.start()
        await asyncio.sleep(1.0)
        target = first
        for i in range(steps):
            pods = server()
            todo = [e for e in events if e == "want" or e == "run" or (e in ("deliver", "see") and w.events) or (e == "up" and [n for n, s in pods.items() if s in PENDING]) or (e in ("move", "gone") and [n for n, s in pods.items() if s in LIVE])]
            ev = x.choice("event%d" % i, todo)
            if ev == "want":
                target = x.int("replicas%d" % i, 0, 3)
                c = w.objects["cluster", "c1"]
                w.put("cluster", dict(c, spec=dict(c["spec"], replicas=target)))
            elif ev == "deliver":
                w.deliver()
                if slow:
                    await asyncio.sleep(0.125)
            elif ev == "see":
                w.deliver_all()
            elif ev == "up":
                n = [n for n, s in pods.items() if s in PENDING][0]
                w.put("pod", pod_object(n, "dask-worker", "running", owner="uid-pod-dask-scheduler-c1"))
            elif ev == "run":
                await asyncio.sleep(slow or 1.0)
            else:
                alike = [[n for n, s in pods.items() if s == q] for q in LIVE]
                n = x.choice("which%d" % i, sorted({n for a in alike if a for n in (a[0], a[-1])}))
                if ev == "gone":
                    w.drop("pod", n)
                else:
                    new = x.choice("to%d" % i, ["running", "failed"] if pods[n] in PENDING else ["succeeded", "evicted"])
                    w.put("pod", pod_object(n, "dask-worker", new, owner="uid-pod-dask-scheduler-c1"))
        w.fault = None
        await settle()
        now = server()
        live = [s for s in now.values() if s in LIVE]
        x.check(x.eq(len(live), x.max(target, len([s for s in live if s == "running"]))), "there are as many workers as requested in the end")
        x.check(not [s for s in now.values() if s in OVER], "finished pods are removed in the end")
        x.reach("settled")
    with Controller(x, w) as r:
        r.run(main())


E4 = ("want", "deliver", "move", "run")
E5 = ("want", "deliver", "move", "gone", "run")


@unit("history", params=[{"steps": 4, "first": 0}, {"steps": 4, "first": 1}, {"steps": 3, "first": 2}, {"steps": 3, "first": 3}], thorough_params=[{"steps": 4, "first": 2}, {"steps": 4, "first": 3}, {"steps": 5, "first": 1}], reach=["create", "settled"], time_limit=800)
def history_(x, steps, first):
    history(x, steps, first, 0, E5)


@unit("slow", params=[{"steps": 5, "first": 3}], thorough_params=[{"steps": 6, "first": f} for f in (2, 3, 4)], reach=["create", "settled"], time_limit=800)
def slow(x, steps, first):
    """pods are observed while further ones are being created"""
    history(x, steps, first, 0, ("run", "deliver", "see", "up"), slow=10.0)


@unit("faults", params=[{"steps": 2, "first": 1, "faults": 2}, {"steps": 2, "first": 2, "faults": 2}, {"steps": 1, "first": 3, "faults": 3}], thorough_params=[{"steps": 3, "first": f, "faults": 3} for f in (1, 2)] + [{"steps": 2, "first": 3, "faults": 4}], reach=["settled"], time_limit=800)
def faults_(x, steps, first, faults):
    history(x, steps, first, faults, E4)


@unit("request", reach=["asked", "refused"])
def request(x):
    """what a scheduler's report makes the gateway ask of the controller"""
    import dask_gateway_server.backends.kubernetes.backend as k
    from dask_gateway_server.models import Cluster, ClusterStatus
    from symx.vloop import run_coro

    async def main():
        b = k.KubeBackend(log=Log())
        count, limit = x.int("count", 0, 1000), x.int("limit", 0, 1000)
        limited = x.flip("limited")
        asked = []
        how = x.choice("answer", ["ok", "gone", "refused"])

        async def patch(group, version, ns, plural, name, body, **kw):
            asked.append((ns, plural, name, body))
            if how == "gone":
                raise api_exception(404)
            if how == "refused":
                raise api_exception(500)
        b.custom_client = Stub(x, "custom client", patch_namespaced_custom_object=patch)
        known = x.flip("known")
        b.clusters = {}
        if known:
            b.clusters["ns.c1"] = Cluster(name="ns.c1", username="u", token="", options={}, config={"cluster_max_workers": limit if limited else None}, status=ClusterStatus.RUNNING)
        from kubernetes_asyncio.client.rest import ApiException
        try:
            await b.on_cluster_heartbeat("ns.c1", {"count": count, "active_workers": ["w"], "closing_workers": [], "closed_workers": []})
            x.check(how != "refused" or not known, "a failed request is reported")
        except ApiException:
            x.check(how == "refused" and known, "only a failed request is reported")
            x.reach("refused")
        x.check(len(asked) == (1 if known else 0), "one request for a known cluster, none for an unknown one")
        for ns, plural, name, body in asked:
            x.check((ns, plural, name) == ("ns", "daskclusters", "c1"), "the cluster's object is changed")
            x.check(len(body) == 1 and body[0]["op"] == "add" and body[0]["path"] == "/spec/replicas", "only the number of workers is changed")
            x.check(x.eq(body[0]["value"], x.min(count, limit) if limited else count), "the number reported, capped at the maximum")
            x.reach("asked")
    run_coro(x, main)
