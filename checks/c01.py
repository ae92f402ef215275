"""C01: a user reaches only the clusters they own."""
from dblib import VALID, Database, add_cluster, add_worker, cleanup, make_backend
from restlib import Log, TrustAuth, body_of, handler_for, Request
from symx.env import Clock, Patch, Stub, Uuid, UuidSeq, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real routes, user model, backends and data manager (Python source) over symbolic user names; z3"
LEVEL_NOTE = ("User names are strings of up to 2 (thorough: 4) arbitrary printable characters per user, cluster states arbitrary; longer names and more than three clusters "
              "are outside the bound. Trusts the SQL model and the aiohttp request stub.")
BOUNDS = "2..3 clusters with owners and requester names of 0..2 (thorough 4) arbitrary printable ASCII characters, any group/admin attributes, every (status, target) the backend produces, one request; one create request followed by one access"
OUTSIDE = "longer or non-ASCII names; authentication itself (C03, C04); token-authenticated calls (C02)"
ASSUMPTIONS = ["the authenticator yields the right user (C03/C04)", "forwarding to the scheduler is recorded (C21)"]
replay_cleanup = cleanup

OPS = {
    "view": ("GET", "/api/v1/clusters/{cluster_name}", None),
    "wait": ("GET", "/api/v1/clusters/{cluster_name}", None),
    "scale": ("POST", "/api/v1/clusters/{cluster_name}/scale", {"count": 1}),
    "adapt": ("POST", "/api/v1/clusters/{cluster_name}/adapt", {"minimum": 0, "maximum": 1, "active": True}),
    "stop": ("DELETE", "/api/v1/clusters/{cluster_name}", None),
}


def nlen(x):
    return 4 if x.tier == "thorough" else 2


def a_user(x, name):
    from dask_gateway_server import models
    rich = x.flip("privileged")
    return models.User(name, groups=["g", "c1"] if rich else [], admin=rich)


def pairs(m):
    return list(m.Cluster._status_map)


def a_state(x, m, name):
    """any combination a record can have"""
    J = m.JobStatus
    s, t = x.enum(name + ".status", J), x.enum(name + ".target", J)
    x.assume(x.any(*[x.all(s == a, t == b) for a, b in VALID(J)]))
    return s, t


def secret_free(resp, body):
    return body is None or (set(body) == {"error"} and "SECRET" not in body["error"])


@unit("access", params=[{"op": o} for o in OPS], reach=["own", "foreign", "unknown"])
def access(x, op):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0
    method, path, msg = OPS[op]

    async def main():
        with Database(x) as db:
            owner = x.str("owner", nlen(x))
            other = x.str("other", 1, 1)
            u = x.str("user", nlen(x))
            s1, t1 = a_state(x, m, "c1")
            add_cluster(db, 1, "c1", s1, t1, username=owner, options={"o": "SECRET1"}, tls=b"SECRETc;SECRETk", token="SECRETt1",
                        dashboard_address="http://SECRET", scheduler_address="tls://SECRET", api_address="http://SECRET")
            add_worker(db, 1, "w1", 1, J.SUBMITTED, J.RUNNING)
            add_cluster(db, 2, "c2", J.RUNNING, J.RUNNING, username=other, options={"o": "SECRET2"}, token="SECRETt2")
            b = make_backend(x, db)
            sent = []

            async def forward(c, msg, *a, **kw):
                sent.append(c.name)
            b.forward_message_to_scheduler = forward
            name = x.choice("name", ["c1", "c9"])
            before = [db.rows("clusters"), db.rows("workers")]
            app = {"backend": b, "authenticator": TrustAuth(a_user(x, u)), "log": Log()}
            req = Request(x, method, path, app, match_info={"cluster_name": name}, msg=msg, query={"wait": ""} if op == "wait" else {})
            resp = await handler_for(x, method, path)(req)
            body = body_of(x, resp)
            after = [db.rows("clusters"), db.rows("workers")]
            x.observe("status", resp.status)
            x.observe("sent", sent)
            nothing = x.all(x.eq(before, after), not sent, not b.queue.items, not b.calls)
            if name == "c9":
                x.check(resp.status == (204 if op == "stop" else 404), "an unknown cluster is not found")
                x.check(x.all(nothing, secret_free(resp, body)), "no effect on others through an unknown name")
                x.reach("unknown")
            elif u == owner:
                x.check(resp.status == (204 if op == "stop" else 200), "the owner's request is carried out")
                x.check(x.eq(before[0][1], after[0][1]), "the other cluster is unaffected")
                if op in ("view", "wait"):
                    x.check(body["name"] == "c1" and body["options"] == {"o": "SECRET1"}, "the owner sees the record")
                    x.check(nothing, "viewing has no effect")
                elif op == "stop":
                    live = t1 == J.RUNNING
                    x.check(x.all(after[0][0]["target"] == x.ite(live, J.STOPPED, t1), after[0][0]["status"] == s1), "the owner's cluster is asked to stop")
                else:
                    x.check(sent == ["c1"] and x.eq(before, after), "the owner's request goes to the owner's cluster")
                x.reach("own")
            else:
                x.check(resp.status == 403, "another user's cluster is forbidden")
                x.check(nothing, "no effect on another user's cluster")
                x.check(secret_free(resp, body), "nothing of another user's cluster is disclosed")
                x.reach("foreign")
    run_coro(x, main)


@unit("list", params=[{"flt": f} for f in ("none", "bad", "running", "pending", "stopping", "stopped", "failed", "RUNNING,FAILED")], reach=["listed"])
def listing(x, flt):
    import dask_gateway_server.backends.db_base as m
    from dask_gateway_server.models import ClusterStatus as S
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            n = 2
            small = flt == "bad"
            owners = [x.str("owner0", nlen(x), 1 if small else 0), x.str("owner1", 1, 1 if small else 0)]
            u = x.str("user", nlen(x), 2 if small else 0)
            st = [a_state(x, m, "c%d" % (i + 1)) if i == 0 or flt == "none" else (J.RUNNING, J.RUNNING) for i in range(n)]
            for i in range(n):
                add_cluster(db, i + 1, "c%d" % (i + 1), st[i][0], st[i][1], username=owners[i], token="t%d" % i)
            b = make_backend(x, db)
            app = {"backend": b, "authenticator": TrustAuth(a_user(x, u)), "log": Log()}
            q = {}
            if flt == "bad":
                q["status"] = x.choice("status", ["", "nope", "running,", "*"])
            elif flt != "none":
                q["status"] = flt
            before = [db.rows("clusters"), db.rows("workers")]
            req = Request(x, "GET", "/api/v1/clusters/", app, query=q)
            resp = await handler_for(x, "GET", "/api/v1/clusters/")(req)
            body = body_of(x, resp)
            x.observe("status", resp.status)
            x.check(x.eq(before, [db.rows("clusters"), db.rows("workers")]), "listing has no effect")
            if flt == "bad":
                x.check(resp.status == 422 and set(body) == {"error"}, "a bad filter is refused")
                x.reach("listed")
                return
            x.check(resp.status == 200, "listing succeeds")
            for i in range(n):
                name = "c%d" % (i + 1)
                s, t = st[i]
                mine = owners[i] == u
                if flt == "none":
                    sel = t < J.STOPPED
                else:
                    want = set(q["status"].lower().split(","))
                    up = t <= J.RUNNING
                    done = s >= J.STOPPED
                    sel = x.any("pending" in want and x.all(up, s <= J.SUBMITTED), "running" in want and x.all(up, s == J.RUNNING),
                                "stopping" in want and x.all(x.no(up), x.no(done)), "stopped" in want and s == J.STOPPED, "failed" in want and s == J.FAILED)
                x.check(x.implies(name in body, mine), "only the user's own clusters are listed")
                x.check(x.iff(name in body, x.all(mine, sel)), "the user's clusters in the wanted states are listed")
                if name in body:
                    x.check(body[name]["name"] == name, "each entry is the record of that cluster")
            x.check(set(body) <= {"c1", "c2"}, "nothing else is listed")
            x.reach("listed")
    run_coro(x, main)


@unit("create", params=[{"op": o} for o in ("view", "stop")], reach=["own", "foreign"])
def create(x, op):
    """a cluster belongs to the user who created it, also after a restart"""
    import dask_gateway_server.backends.db_base as m
    Clock.wall = lambda: 1000.0
    Uuid.fn = UuidSeq()
    method, path, msg = OPS[op]

    async def main():
        with Database(x, persistent=True) as db, Patch() as p:
            p.set(m, "new_keypair", lambda name: (b"SECRETcert", b"SECRETkey"))
            ident(x, m, p)
            u1, u2 = x.str("creator", nlen(x)), x.str("user", nlen(x))
            b = make_backend(x, db, db_encrypt_keys=[KEY])
            app = {"backend": b, "authenticator": TrustAuth(a_user(x, u1)), "log": Log()}
            resp = await handler_for(x, "POST", "/api/v1/clusters/")(Request(x, "POST", "/api/v1/clusters/", app, msg={}))
            x.check(resp.status == 201, "the cluster is created")
            name = body_of(x, resp)["name"]
            if x.flip("restart"):
                b = make_backend(x, db, db_encrypt_keys=[KEY])
            app = {"backend": b, "authenticator": TrustAuth(a_user(x, u2)), "log": Log()}
            resp = await handler_for(x, "GET", "/api/v1/clusters/")(Request(x, "GET", "/api/v1/clusters/", app))
            listed = body_of(x, resp)
            x.check(x.iff(name in listed, u1 == u2), "the cluster is listed for its creator only")
            resp = await handler_for(x, method, path)(Request(x, method, path, app, match_info={"cluster_name": name}, msg=msg))
            x.observe("status", resp.status)
            row = db.rows("clusters")[0]
            if u1 == u2:
                x.check(resp.status == (204 if op == "stop" else 200), "the creator reaches the cluster")
                x.reach("own")
            else:
                x.check(resp.status == 403, "others do not reach the cluster")
                x.check(row["target"] == m.JobStatus.RUNNING and secret_free(resp, body_of(x, resp)), "others have no effect on the cluster")
                x.reach("foreign")
    run_coro(x, main)


KEY = b"a" * 43 + b"="


def ident(x, m, p):
    """encryption is C13's business"""
    class F:
        def __init__(self, keys):
            pass

        def encrypt(self, b):
            return b

        def decrypt(self, b):
            return b
    if x.symbolic:
        p.set(m, "MultiFernet", F)
        p.set(m, "Fernet", lambda k: k)


def kobj(name, user, phase):
    ns, nm = name.split(".")
    return {"metadata": {"namespace": ns, "name": nm, "creationTimestamp": "2020-01-01T00:00:00Z"},
            "spec": {"username": user, "options": {}, "config": {}}, "status": {"phase": phase}}


@unit("kube", reach=["listed"])
def kube(x):
    """the Kubernetes backend lists and returns records under the user name in the object"""
    import dask_gateway_server.backends.kubernetes.backend as k
    from collections import defaultdict
    from dask_gateway_server.utils import Flag

    async def main():
        b = k.KubeBackend()
        owners = [x.str("owner%d" % i, nlen(x)) for i in range(2)]
        u = x.str("user", nlen(x))
        phases = [x.choice("phase%d" % i, ["Pending", "Running", "Stopped", "Failed"]) for i in range(2)]
        b.cluster_waiters, b.clusters, b.username_to_clusters = defaultdict(Flag), {}, defaultdict(dict)
        cache = {"ns.c%d" % i: kobj("ns.c%d" % i, owners[i], phases[i]) for i in range(2)}
        b.informer = Stub(x, "informer", get=cache.get)
        for n in list(cache):
            await b.sync_cluster(n)
        got = await b.list_clusters(username=u)
        gone = x.choice("gone", [None, 0, 1])
        if gone is not None:
            del cache["ns.c%d" % gone]
            await b.sync_cluster("ns.c%d" % gone)
            got = await b.list_clusters(username=u)
        names = [c.name for c in got]
        x.observe("names", names)
        for i in range(2):
            n = "ns.c%d" % i
            x.check(x.iff(n in names, x.all(owners[i] == u, phases[i] in ("Pending", "Running"), gone != i)), "exactly the user's active clusters are listed")
            c = await b.get_cluster(n)
            x.check((c is None) == (gone == i), "a record exists while the object does")
            if c is not None:
                x.check(c.username == owners[i], "the record carries the owner's name")
        x.reach("listed")
    run_coro(x, main)
