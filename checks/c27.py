"""C27: the Kubernetes controller's cluster phases move forward and clean up everything."""
import asyncio
import datetime

from kubelib import NS, Controller, World, api_exception, cluster_object, pod_object
from symx.env import Clock, unit

TECHNIQUE = "symbolic execution of the real Kubernetes controller (Python source) against a model of the Kubernetes API with symbolic times, chosen object states, event orders, restarts and faults; z3"
LEVEL_NOTE = "One reconciliation of a cluster in every phase with every set of recorded objects, every scheduler pod state and every readiness; every history of up to 4 (thorough 5) stops, pod changes, deletions, readiness changes, controller restarts and event deliveries from three starting points; up to 2 (thorough 3) failing API calls, failing before or after they took effect; expiry of up to 3 finished clusters at symbolic times."
BOUNDS = "one cluster next to an untouched second one; histories of 4 (thorough 5) events; 2 (thorough 3) failing calls at any of the first 12; 3 finished clusters, times on a grid of 1/8 s"
OUTSIDE = "a scheduler pod deleted by somebody else while its cluster is still pending (the cluster keeps waiting until it is stopped); objects renamed by an administrator's configuration"
ASSUMPTIONS = ["the API server delivers the events of each kind of object in order", "objects whose owners are all gone are garbage collected by Kubernetes"]

OVER = ("done", "crashed", "succeeded", "failed", "evicted")
RECORDED = {"credentials": "dask-credentials-c1", "schedulerPod": "dask-scheduler-c1", "service": "dask-c1", "ingressroute": "dask-c1", "ingressroutetcp": "dask-c1"}
KIND = {"credentials": "secret", "schedulerPod": "pod", "service": "service", "ingressroute": "ingressroute", "ingressroutetcp": "ingressroutetcp"}
RANK = {"Pending": 0, "Running": 1, "Stopped": 2, "Failed": 2}
POD = "dask-scheduler-c1"
NOW = datetime.datetime(2024, 2, 29, 23, 59, 58, 765432, datetime.timezone.utc)


class Day(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return NOW.astimezone(tz) if tz is not None else NOW.replace(tzinfo=None)


def fixed_day(r):
    import dask_gateway_server.backends.kubernetes.utils as u
    r.patch.set(u, "datetime", Day)
    Clock.wall = lambda: NOW.timestamp()


def plain(kind, name, owner=None):
    m = {"name": name, "namespace": NS, "labels": {"gateway.dask.org/cluster": "c1", "gateway.dask.org/instance": "inst", "app.kubernetes.io/component": "dask-scheduler"}}
    if owner:
        m["ownerReferences"] = [{"uid": owner}]
    return {"kind": kind, "metadata": m}


def endpoints(state, cluster="c1"):
    o = plain("Endpoints", "dask-" + cluster, "uid-service-dask-c1")
    up, down = {"addresses": [{"ip": "1.2.3.4"}]}, {"notReadyAddresses": [{"ip": "1.2.3.4"}]}
    o.update({"none": {}, "empty": {"subsets": []}, "ready": {"subsets": [up]}, "not ready": {"subsets": [down]}, "half": {"subsets": [up, dict(up, **down)]}}[state])
    return o


def scheduler_pod(state):
    o = pod_object(POD, "dask-scheduler", state, owner="uid-c1")
    o["metadata"]["uid"] = "uid-pod-" + POD
    return o


def bystander(w):
    w.put("cluster", cluster_object("c2", replicas=0, status={k: v.replace("c1", "c2") for k, v in dict(RECORDED, phase="Running").items()}), event=False)
    w.put("pod", pod_object("dask-scheduler-c2", "dask-scheduler", "running", cluster="c2"), event=False)


def collect(w):
    """what Kubernetes' garbage collector does"""
    again = True
    while again:
        uids = {o["metadata"]["uid"] for o in w.objects.values()}
        gone = [k for k, o in w.objects.items() if o["metadata"].get("ownerReferences") and not any(q["uid"] in uids for q in o["metadata"]["ownerReferences"])]
        for k in gone:
            w.drop(*k)
        again = bool(gone)


def left(w):
    return sorted("%s/%s" % k for k in w.objects if k != ("cluster", "c1") and "c2" not in k[1])


def untouched(x, w):
    x.check(not [c for c in w.calls if "c2" in c[2]], "another cluster isn't touched")


def own(x, w):
    """everything goes with the cluster's scheduler pod and credentials"""
    for (kind, name), o in w.objects.items():
        if kind != "cluster" and "c2" not in name:
            x.check(bool(o["metadata"].get("ownerReferences")), "everything created has an owner", info={"object": [kind, name]})
    before = dict(w.objects), list(w.events)
    w.drop("pod", POD)
    w.drop("secret", RECORDED["credentials"])
    collect(w)
    x.check(not left(w), "everything goes with the scheduler pod and the credentials", info={"left": left(w)})
    w.objects, w.events = before


@unit("step", params=[{"phase": p} for p in ("none", "Pending", "Running", "Stopped", "Failed")], reach=["judged"])
def step(x, phase):
    """one reconciliation of any cluster"""
    replicas = x.int("replicas", 0, 3)
    flag = x.bool("active")
    status = {} if phase == "none" else {"phase": phase}
    pod = x.choice("pod", ["missing", "unscheduled", "starting", "running", "unknown"] + list(OVER))
    if phase not in ("none",):
        known = 4 if phase == "Running" else x.choice("recorded", [0, 1, 3, 4])
        for k, v in RECORDED.items():
            if (4 if k.startswith("ingress") else 3 if k == "service" else 1) <= known:
                status[k] = v
    done = phase in ("Stopped", "Failed")
    if done and x.flip("completed"):
        status["completionTime"] = "2024-02-29T23:00:00Z"
    eps = x.choice("endpoints", ["missing", "none", "empty", "ready", "not ready", "half"]) if pod == "running" else "missing"
    w = World(x)
    default = x.flip("default")
    w.put("cluster", cluster_object(active=None if default else flag, replicas=replicas, status=status or None), event=False)
    bystander(w)
    if pod != "missing":
        o = scheduler_pod(pod)
        if pod in ("done", "crashed", "succeeded", "failed"):
            o["status"]["containerStatuses"][0]["state"]["terminated"]["exitCode"] = x.int("exit", -1, 255)
        w.put("pod", o, event=False)
    exists = {k for k in RECORDED if k in status and k != "schedulerPod"}
    if pod == "missing":
        exists &= {"credentials"}
    for k in sorted(exists):
        w.put(KIND[k], plain(k, RECORDED[k], "uid-c1" if k == "credentials" else "uid-pod-" + POD), event=False)
    if eps != "missing":
        w.put("endpoints", endpoints(eps), event=False)

    async def main():
        fixed_day(r)
        await r.start()
        await asyncio.sleep(5.0)
        untouched(x, w)
        active = True if default else bool(flag)
        own_calls = [c[:3] for c in w.calls]
        created = [c for c in own_calls if c[0] == "create"]
        deleted = [c for c in own_calls if c[0] == "delete"]
        last = w.objects["cluster", "c1"].get("status") or {}
        x.check(len(w.patches) <= 1, "one status update")
        x.reach("judged")
        if done:
            x.check(not w.calls, "a finished cluster is left alone")
            return
        ends = not active or (pod in OVER and (phase == "Running" or "schedulerPod" in status)) or (phase == "Running" and pod == "missing")
        if ends:
            x.check(last.get("phase") == ("Failed" if active else "Stopped"), "the cluster ends", info={"status": last})
            x.check(last.get("completionTime") == "2024-02-29T23:59:58Z", "the completion time is recorded", info={"status": last})
            x.check(not created, "nothing is created for an ended cluster")
            x.check(sorted(d[1] for d in deleted) == ["pod", "secret"], "the scheduler pod and the credentials are deleted")
            collect(w)
            x.check(not left(w), "everything is gone", info={"left": left(w)})
            return
        x.check(not deleted, "nothing of a living cluster is deleted")
        x.check("completionTime" not in last, "a living cluster isn't completed")
        x.check(all(last.get(k) == v for k, v in status.items() if k != "phase"), "recorded objects stay recorded")
        if phase == "Running":
            x.check(last == status, "a running cluster stays as it is")
            x.check(all(c[2].startswith("dask-worker-c1-") for c in created), "only workers are added to a running cluster")
            x.check(x.eq(len(created), replicas if pod == "running" else 0), "the workers asked for are created")
            own(x, w)
            return
        want = []
        if "credentials" not in status:
            want.append("credentials")
        if "schedulerPod" not in status:
            want.append("schedulerPod")
        # the pod of an earlier attempt is noticed when its name is on record
        usable = pod == "running" and "schedulerPod" in status
        if usable:
            if "service" not in status:
                want.append("service")
            if eps == "ready":
                if "ingressroute" not in status:
                    want += ["ingressroute", "ingressroutetcp"]
        x.check(sorted(c[1:] for c in created) == sorted((KIND[k], RECORDED[k]) for k in want), "exactly what is missing is created", info={"created": created, "want": want})
        x.check(all(last.get(k) == RECORDED[k] for k in want), "what was created is recorded", info={"status": last})
        x.check(last.get("phase") == ("Running" if usable and eps == "ready" else "Pending"), "a cluster runs once its scheduler is ready", info={"status": last})
        own(x, w)
    with Controller(x, w) as r:
        r.run(main())


def history(x, start, steps, nfaults, events):
    w = World(x)
    bystander(w)
    st = {"over": False, "finished": False, "deleted": False}
    if start == "new":
        w.put("cluster", cluster_object(replicas=0), event=False)
    else:
        rec = {k: v for k, v in RECORDED.items() if start == "running" or k in ("credentials", "schedulerPod")}
        w.put("cluster", cluster_object(replicas=0, status=dict(rec, phase="Running" if start == "running" else "Pending")), event=False)
        w.put("pod", scheduler_pod("running" if start == "running" else "starting"), event=False)
        for k in rec:
            if k != "schedulerPod":
                w.put(KIND[k], plain(k, RECORDED[k], "uid-c1" if k == "credentials" else "uid-pod-" + POD), event=False)
        if start == "running":
            w.put("endpoints", endpoints("ready"), event=False)
            r_worker = pod_object("dask-worker-c1-x", "dask-worker", "running", owner="uid-pod-" + POD)
            w.put("pod", r_worker, event=False)
    rank = {"none": 0, "new": 0, "pending": 0, "running": 1}[start]
    st["rank"] = rank

    def on_call(op, kind, name, exc):
        if op == "create" and (exc is None or getattr(exc, "after", False)):
            x.check(st["rank"] < 2, "nothing is created for a finished cluster", info={"kind": kind})
    w.on_call = on_call
    count = [0, nfaults]
    at = [x.int("fault_at%d" % i, 0, 11) for i in range(nfaults)]
    for a, b in zip(at, at[1:]):
        x.assume(a < b)

    def fault(op, kind, name):
        if not nfaults or count[1] <= 0:
            return None
        i = nfaults - count[1]
        count[0] += 1
        if not at[i] == count[0] - 1:
            return None
        count[1] -= 1
        how = x.choice("fault%d" % i, ["refused", "broken", "after"])
        x.reach("fault")
        if how == "refused":
            return api_exception(500, "x")
        exc = OSError("broken")
        exc.after = how == "after"
        return exc
    w.fault = fault

    put = w.put

    def watch_phase(kind, obj, event=True):
        if kind == "cluster" and obj["metadata"]["name"] == "c1":
            new = RANK.get((obj.get("status") or {}).get("phase", "Pending"))
            x.check(new is not None and new >= st["rank"], "phases only move forward", info={"status": obj.get("status")})
            st["rank"] = new
            if new == 2:
                x.check("completionTime" in obj["status"], "the completion time is recorded")
        put(kind, obj, event)
    w.put = watch_phase

    async def settle():
        for _ in range(15):
            w.deliver_all()
            await asyncio.sleep(20.0)
            if not w.events:
                break
        x.check(not w.events, "the controller comes to rest")

    async def main():
        fixed_day(r)
        await r.start()
        await asyncio.sleep(1.0)
        stopped = False
        for i in range(steps):
            pod = w.objects.get(("pod", POD))
            state = None
            if pod is not None:
                state = "starting" if pod["status"]["phase"] == "Pending" else "over"
                if pod["status"]["phase"] == "Running" and "running" in pod["status"]["containerStatuses"][0]["state"]:
                    state = "running"
            todo = []
            for e in events:
                if e == "stop" and not stopped:
                    todo.append(e)
                elif e == "deliver":
                    todo += ["deliver " + k for k in sorted({q[0] for q in w.events})]
                elif e in ("pod",) and state in ("starting", "running"):
                    todo.append(e)
                elif e == "ready" and ("service", "dask-c1") in w.objects and state == "running":
                    todo.append(e)
                elif e == "pod gone" and pod is not None:
                    todo.append(e)
                elif e in ("run", "restart"):
                    todo.append(e)
            ev = x.choice("event%d" % i, todo)
            if ev == "stop":
                stopped = True
                c = w.objects["cluster", "c1"]
                w.put("cluster", dict(c, spec=dict(c["spec"], active=False)))
            elif ev.startswith("deliver"):
                k = ev.split()[1]
                w.deliver([n for n, q in enumerate(w.events) if q[0] == k][0])
            elif ev == "run":
                await asyncio.sleep(1.0)
            elif ev == "restart":
                await r.stop()
                await r.start()
            elif ev == "ready":
                w.put("endpoints", endpoints("ready"))
            elif ev == "pod gone":
                st["deleted"] = True
                w.drop("pod", POD)
            else:
                new = x.choice("to%d" % i, ["running", "evicted"] if state == "starting" else ["crashed", "succeeded"])
                w.put("pod", scheduler_pod(new))
        await settle()
        w.fault = None
        untouched(x, w)
        own(x, w)
        c = w.objects["cluster", "c1"]
        last = c.get("status") or {}
        phase = last.get("phase")
        pod = w.objects.get(("pod", POD))
        x.reach("end %s" % phase)
        if stopped:
            x.check(phase in ("Stopped", "Failed"), "a cluster that should stop stops", info={"status": last})
        if phase in ("Stopped", "Failed"):
            collect(w)
            x.check(not left(w), "everything is gone", info={"left": left(w)})
            k = len(w.calls)
            await asyncio.sleep(600.0)
            x.check(len(w.calls) == k, "a finished cluster is left alone")
            return
        x.check(not [c for c in w.calls if c[0] == "delete"], "nothing of a living cluster is deleted")
        if pod is None:
            # deleted by somebody else
            x.check(st["deleted"] and phase == "Pending", "a cluster that lost its scheduler ends")
            return
        up = pod["status"]["phase"] == "Running" and "running" in pod["status"]["containerStatuses"][0]["state"]
        x.check(up or pod["status"]["phase"] == "Pending", "a cluster whose scheduler ended ends", info={"status": last})
        ready = ("endpoints", "dask-c1") in w.objects and bool(w.objects["endpoints", "dask-c1"].get("subsets"))
        x.check(phase == ("Running" if up and ready else "Pending") or (phase == "Running" and start == "running"), "the phase follows the scheduler", info={"status": last})
        have = ["credentials", "schedulerPod"] + (["service"] if up else []) + (["ingressroute", "ingressroutetcp"] if up and ready else [])
        x.check(all(last.get(k) == RECORDED[k] and (KIND[k], RECORDED[k]) in w.objects for k in have), "what a cluster needs exists and is on record", info={"status": last, "left": left(w)})
    with Controller(x, w) as r:
        r.run(main())


ALL = ("stop", "deliver", "pod", "ready", "pod gone", "run", "restart")
FEW = ("stop", "deliver", "pod", "run")


@unit("history", params=[{"start": "new", "steps": 3}, {"start": "pending", "steps": 4}, {"start": "running", "steps": 3}], thorough_params=[{"start": "new", "steps": 4}, {"start": "pending", "steps": 5}, {"start": "running", "steps": 4}], reach=["end Failed"], time_limit=800)
def history_(x, start, steps):
    history(x, start, steps, 0, ALL)


@unit("faults", params=[{"start": "new", "steps": 2, "faults": 1}, {"start": "new", "steps": 1, "faults": 2}, {"start": "pending", "steps": 2, "faults": 2}, {"start": "running", "steps": 2, "faults": 2}], thorough_params=[{"start": "new", "steps": 2, "faults": 2}] + [{"start": s, "steps": 3, "faults": 2} for s in ("new", "pending", "running")] + [{"start": "running", "steps": 1, "faults": 3}], reach=["fault"], time_limit=800)
def faults_(x, start, steps, faults):
    history(x, start, steps, faults, FEW)


@unit("expiry", params=[{"n": n} for n in (1, 2)], thorough_params=[{"n": 3}], reach=["expired", "kept"])
def expiry(x, n):
    """records of finished clusters are removed once they are old enough, and only those"""
    w = World(x)
    age = x.real("age", 0, 100000)
    start = x.real("start", -1000, 200000)
    base = datetime.datetime(2024, 3, 1, tzinfo=datetime.timezone.utc).timestamp()
    wall = lambda: base + start + r.loop.now
    ends = {}
    for i in range(n):
        name = "c%d" % (i + 5)
        what = x.choice("cluster%d" % i, ["Stopped", "Failed", "unknown", "Running"])
        st = {"phase": "Stopped" if what == "unknown" else what}
        if what == "Running":
            st.update({k: v.replace("c1", name) for k, v in RECORDED.items()})
            w.put("pod", pod_object("dask-scheduler-" + name, "dask-scheduler", "running", cluster=name), event=False)
        elif what != "unknown":
            st["completionTime"] = "2024-03-01T00:%02d:10Z" % (10 * i)
            ends[name] = base + 600 * i + 10
        else:
            ends[name] = None
        w.put("cluster", cluster_object(name, replicas=0, status=st), event=False)
    failing = x.flip("failing")
    hit = {"n": 0}

    def fault(op, kind, name):
        if op == "delete" and failing and not hit["n"]:
            hit["n"] += 1
            return api_exception(500)
    w.fault = fault
    asked = {}

    def on_call(op, kind, name, exc):
        x.check((op, kind) == ("delete", "cluster") and name in ends, "only records of finished clusters are deleted")
        x.check(wall() - age >= ends[name], "no record is deleted early")
        x.check(name not in asked, "a record is deleted once")
        if exc is None:
            asked[name] = wall()
        x.reach("expired")
    w.on_call = on_call

    async def main():
        Clock.wall = wall
        for k in list(ends):
            if ends[k] is None:
                ends[k] = wall()
        await r.start()
        for i in range(4):
            await asyncio.sleep(301.0 if i else 1.0)
            w.deliver_all()
            await asyncio.sleep(1.0)
            if i < 2:
                continue
            for k, end in ends.items():
                # noticed in the last round, whatever its rounding to milliseconds
                if wall() - (604.0 if failing else 303.0) - age >= end:
                    x.check(k in asked, "old records are deleted")
                elif k not in asked:
                    x.reach("kept")
    with Controller(x, w, completed_cluster_max_age=age, completed_cluster_cleanup_period=300.0) as r:
        r.run(main())
