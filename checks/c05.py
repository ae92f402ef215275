"""C05: credentials and dashboard are exposed only while a cluster runs."""
from dblib import VALID, Database, add_cluster, cleanup, make_backend
from restlib import Log, Request, TrustAuth, body_of, handler_for
from symx.env import Clock, Stub, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real record, status mapping and routes (Python source) over all stored states; z3"
LEVEL_NOTE = "Every (status, target) pair the backend produces, dashboard addresses and credentials of up to 2 arbitrary characters, both record forms, the view and list routes and the Kubernetes backend's records."
BOUNDS = "one record; every stored (status, target) pair or record status; dashboard address of 0..2 arbitrary characters, certificate and key of 1..2 bytes"
OUTSIDE = "which pairs the backend produces over a whole history (C09)"
ASSUMPTIONS = ["the pairs a backend produces are those C09 shows to be closed under every step"]
replay_cleanup = cleanup


@unit("record", params=[{"full": f} for f in (True, False)], reach=["running", "other"])
def record(x, full):
    from dask_gateway_server import models
    S = models.ClusterStatus
    st = x.enum("status", S)
    dash = x.str("dash", 2)
    cert, key = x.str("cert", 2, 1), x.str("key", 2, 1)
    t0, t1 = x.int("start", 0), x.int("stop", 0)
    stopped = x.flip("has_stop")
    c = models.Cluster("c1", "alice", "SECRETtok", {"o": 1}, {"cfg": "SECRETcfg"}, st, scheduler_address="SECRETs", dashboard_address=dash, api_address="SECRETa",
                       tls_cert=cert.encode(), tls_key=key.encode(), start_time=t0, stop_time=t1 if stopped else None)
    d = c.to_dict() if full is True and x.flip("default") else c.to_dict(full=full)
    x.observe("d", d)
    run = st == S.RUNNING
    has = x.all(run, len(dash) > 0)
    x.check(x.iff(d["dashboard_route"] is not None, has), "a dashboard route exactly while running with a dashboard")
    if d["dashboard_route"] is not None:
        x.check(d["dashboard_route"] == "/clusters/c1/status", "the dashboard route is the cluster's")
    x.check(d["name"] == "c1" and d["options"] == {"o": 1}, "name and options are the cluster's")
    x.check(x.all(x.eq(d["start_time"], t0), x.eq(d["stop_time"], t1 if stopped else None)), "the times are the cluster's")
    x.check(d["status"] == x.conc(st).name, "the status is the cluster's")
    x.check("SECRET" not in repr({k: v for k, v in d.items() if k not in ("tls_cert", "tls_key", "start_time", "stop_time", "dashboard_route")}), "token, config and addresses are not in the record")
    if full:
        if run:
            x.check(d["tls_cert"] == cert and d["tls_key"] == key, "credentials while running")
            x.reach("running")
        else:
            x.check(d["tls_cert"] is None and d["tls_key"] is None, "no credentials unless running")
            x.reach("other")
    else:
        x.check("tls_cert" not in d and "tls_key" not in d, "no credentials in the summary form")
        x.reach("running" if x.conc(st) == S.RUNNING else "other")


@unit("view", params=[{"how": h} for h in ("view", "wait", "list")], reach=["RUNNING", "PENDING", "STOPPING"])
def view(x, how):
    import dask_gateway_server.backends.db_base as m
    from dask_gateway_server.models import ClusterStatus as S
    from dask_gateway_server import models
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            s, t = x.enum("status", J), x.enum("target", J)
            x.assume(x.any(*[x.all(s == a, t == b) for a, b in VALID(J)]))
            dash = x.str("dash", 1)
            add_cluster(db, 1, "c1", s, t, dashboard_address=dash, tls=b"CERT;KEY", options={"o": 1})
            b = make_backend(x, db)
            app = {"backend": b, "authenticator": TrustAuth(models.User("alice")), "log": Log()}
            up = t <= J.RUNNING
            if how == "list":
                path = "/api/v1/clusters/"
                req = Request(x, "GET", path, app, query={"status": "pending,running,stopping,stopped,failed"})
            else:
                path = "/api/v1/clusters/{cluster_name}"
                req = Request(x, "GET", path, app, match_info={"cluster_name": "c1"}, query={"wait": "1"} if how == "wait" else {})
            resp = await handler_for(x, "GET", path)(req)
            x.check(resp.status == 200, "every stored state has a client-visible form")
            d = body_of(x, resp)
            d = d["c1"] if how == "list" else d
            x.observe("d", d)
            run = x.all(s == J.RUNNING, up)
            x.check(x.iff(d["status"] == "RUNNING", run), "running is shown exactly for a running cluster nobody asked to stop")
            x.check(x.iff(d["status"] == "PENDING", x.all(s < J.RUNNING, up)), "pending is shown exactly before running")
            x.check(x.iff(d["status"] == "STOPPED", s == J.STOPPED), "stopped is shown exactly for a stopped cluster")
            x.check(x.iff(d["status"] == "FAILED", s == J.FAILED), "failed is shown exactly for a failed cluster")
            x.check(x.iff(d["status"] == "STOPPING", x.all(x.no(up), s < J.STOPPED)), "stopping is shown exactly while stopping")
            x.check(x.iff(d.get("tls_cert") == "CERT", run) if "tls_cert" in d else x.no(run), "the certificate exactly while running")
            x.check(x.iff(d.get("tls_key") == "KEY", run) if "tls_key" in d else x.no(run), "the key exactly while running")
            x.check(x.all(d.get("tls_cert") in (None, "CERT"), d.get("tls_key") in (None, "KEY")), "nothing else in place of credentials")
            x.check(x.iff(d["dashboard_route"] is not None, x.all(run, len(dash) > 0)), "the dashboard exactly while running with one")
            x.reach(d["status"])
    run_coro(x, main)


@unit("kube", reach=["RUNNING", "other"])
def kube(x):
    import base64
    import dask_gateway_server.backends.kubernetes.backend as k
    from collections import defaultdict
    from dask_gateway_server.utils import Flag

    async def main():
        b = k.KubeBackend()
        b.cluster_waiters, b.clusters, b.username_to_clusters = defaultdict(Flag), {}, defaultdict(dict)
        phase = x.choice("phase", [None, "Pending", "Running", "Stopped", "Failed"])
        prev = x.choice("before", ["new", "Pending", "Running"])
        cred = x.flip("cred")
        svc = x.flip("service")
        e = lambda s: base64.b64encode(s.encode()).decode()

        async def read(name, ns):
            return Stub(x, "secret", data={"dask.crt": e("CERT"), "dask.pem": e("KEY"), "api-token": e("TOK")})
        b.core_client = Stub(x, "core", read_namespaced_secret=read)

        def obj(phase, cred, svc):
            st = {} if phase is None else {"phase": phase}
            if cred:
                st["credentials"] = "sec"
            if svc:
                st["service"] = "svc"
            o = {"metadata": {"namespace": "ns", "name": "c1", "creationTimestamp": "2020-01-01T00:00:00Z"}, "spec": {"username": "alice", "config": {}}}
            if st or x.flip("has_status"):
                o["status"] = st
            return o
        cache = {}
        b.informer = Stub(x, "informer", get=cache.get)
        if prev != "new":
            cache["ns.c1"] = obj(prev, True, prev == "Running")
            await b.sync_cluster("ns.c1")
        cache["ns.c1"] = obj(phase, cred, svc)
        await b.sync_cluster("ns.c1")
        c = await b.get_cluster("ns.c1")
        d = c.to_dict()
        x.observe("d", d)
        x.check(d["status"] == (phase or "Pending").upper(), "the status is the object's phase")
        run = phase == "Running"
        have = cred or prev != "new"
        if run and have:
            x.check(d["tls_cert"] == "CERT" and d["tls_key"] == "KEY", "credentials while running")
        if not run:
            x.check(d["tls_cert"] is None and d["tls_key"] is None, "no credentials unless running")
        x.check((d["dashboard_route"] is not None) == (run and svc), "a dashboard exactly while running with a service")
        x.check((c.scheduler_address, c.api_address, c.dashboard_address) == (("tls://svc.ns:8786", "http://svc.ns:8788", "http://svc.ns:8787") if run and svc else ("", "", "")), "addresses only while running")
        x.reach("RUNNING" if run else "other")
    run_coro(x, main)
