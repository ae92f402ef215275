"""C02: cluster-to-gateway calls need that cluster's own token."""
from aiohttp import web

from dblib import Database, add_cluster, cleanup, make_backend
from restlib import Log, Request, TrustAuth, body_of, handler_for
from symx.env import Clock, Stub, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real token wrapper, routes and backends (Python source) over symbolic headers and tokens; z3"
LEVEL_NOTE = ("Every Authorization header of up to 8 (thorough: 10) characters over the alphabet of the scheme word and tokens, plus fixed scheme words with arbitrary printable values, "
              "against cluster tokens of 1..2 arbitrary characters; longer headers are outside the bound.")
BOUNDS = "one request; header absent, empty, any string up to 7..8 characters over 'token xy', or a scheme word and up to 2 arbitrary printable characters; two clusters with tokens of 1..2 characters; a known or unknown cluster name"
OUTSIDE = "longer tokens; header values with leading or trailing white space, which HTTP parsing strips"
ASSUMPTIONS = ["HTTP header values carry no leading or trailing space (aiohttp strips it)", "cluster tokens are not empty"]
replay_cleanup = cleanup

URL = "/api/v1/clusters/{cluster_name}"
MSG = {"count": 1, "active_workers": [], "closing_workers": [], "closed_workers": [], "api_address": "a", "scheduler_address": "s", "dashboard_address": "d"}
SCHEMES = ["token", "Token", "tokens", "Basic", "Bearer", "token\t"]


def header(x, kind):
    """-> (header or None, scheme is exactly 'token', value)"""
    if kind == "none":
        return x.choice("h", [None, ""])
    if kind == "free":
        h = x.str("h", 10 if x.tier == "thorough" else 8, 1, alphabet="token xy" if x.tier == "thorough" else "tk oxenyT"[:9])
    else:
        h = kind + " " + x.str("v", 3 if x.tier == "thorough" else 2, 1)
    x.assume(x.all(h[0] != " ", h[len(h) - 1] != " "))
    return h


KINDS = ["none"] + SCHEMES


def tokens(x, free):
    alpha = "xy " if free else None
    return [x.str("tok1", 2, 1, alphabet=alpha), x.str("tok2", 2, 1, alphabet=alpha)]


def scenario(x, kind, call, fixed=None):
    import dask_gateway_server.backends.db_base as m
    from dask_gateway_server import models
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            if kind == "shape":
                # any short header, split over the units by its length
                h = x.str("h", fixed, fixed, alphabet="token xyT")
                x.assume(x.all(h[0] != " ", h[fixed - 1] != " "))
                toks = [x.str("tok1", 2, 1, alphabet="xyk "), "zz"]
            else:
                h = header(x, kind)
                toks = tokens(x, False)
            x.assume(toks[0] != toks[1])
            name = x.choice("name", ["c1", "c9"] if kind == "shape" else ["c1", "c2", "c9"])
            add_cluster(db, 1, "c1", J.SUBMITTED, J.RUNNING, token=toks[0])
            add_cluster(db, 2, "c2", J.SUBMITTED, J.RUNNING, token=toks[1], username="bob")
            b = make_backend(x, db)
            mode = x.choice("auth", ["fails", "alice", "carol"]) if call == "stop" else "fails"
            auth = TrustAuth(models.User(mode), web.HTTPUnauthorized(reason="Authentication required") if mode == "fails" else None)
            app = {"backend": b, "authenticator": auth, "log": Log()}
            before = db.rows("clusters")
            method, path = ("POST", URL + "/heartbeat") if call == "heartbeat" else ("DELETE", URL)
            hb = [c.last_heartbeat for c in (b.db.get_cluster("c1"), b.db.get_cluster("c2"))]
            req = Request(x, method, path, app, match_info={"cluster_name": name}, msg=dict(MSG), headers={} if h is None else {"Authorization": h})
            resp = await handler_for(x, method, path)(req)
            after = db.rows("clusters")
            x.observe("status", resp.status)
            x.observe("changed", [x.eq(p, q) for p, q in zip(before, after)])
            own = {"c1": toks[0], "c2": toks[1]}.get(name)
            good = False if own is None or h is None else h == "token " + own
            i = {"c1": 0, "c2": 1}.get(name)
            for j in range(2):
                if j != i:
                    x.check(x.all(x.eq(before[j], after[j]), b.db.get_cluster("c%d" % (j + 1)).last_heartbeat == hb[j]), "no other cluster is affected")
            if good:
                x.check(auth.calls == 0, "the cluster's token suffices")
                if call == "heartbeat":
                    x.check(resp.status == 200 and after[i]["scheduler_address"] == "s" and after[i]["count"] == 1, "the cluster's heartbeat takes effect")
                else:
                    x.check(resp.status == 204 and after[i]["target"] == J.STOPPED, "the cluster's stop request takes effect")
                x.reach("accepted")
                return
            unchanged = x.eq(before, after)
            if call == "heartbeat":
                x.check(resp.status == 401, "a heartbeat without the cluster's token is refused with 401")
                x.check(x.all(unchanged, [c.last_heartbeat for c in (b.db.get_cluster("c1"), b.db.get_cluster("c2"))] == hb), "a refused heartbeat has no effect")
                x.check(auth.calls == 0 and not b.queue.items, "a refused heartbeat does nothing")
            else:
                x.check(auth.calls == 1, "a stop request without the token is user-authenticated")
                if mode == "fails":
                    x.check(resp.status == 401 and unchanged, "without any authentication nothing happens")
                else:
                    owner = {"c1": "alice", "c2": "bob"}.get(name)
                    if owner == mode:
                        x.check(resp.status == 204 and after[i]["target"] == J.STOPPED, "the owner's stop request takes effect")
                    else:
                        x.check(resp.status == (204 if owner is None else 403) and unchanged, "a user without permission has no effect")
            x.reach("refused")
    run_coro(x, main)


@unit("call", params=[{"kind": k, "call": c} for k in ["none"] + SCHEMES for c in ("heartbeat", "stop")], reach=["refused"])
def call(x, kind, call):
    scenario(x, kind, call)


@unit("shape", params=[{"n": n, "call": c} for n in (1, 5, 6, 7, 8) for c in ("heartbeat", "stop")],
      thorough_params=[{"n": n, "call": c} for n in (2, 3, 4, 9, 10) for c in ("heartbeat", "stop")], reach=["refused"])
def shape(x, n, call):
    scenario(x, "shape", call, n)


@unit("kube", params=[{"call": c} for c in ("heartbeat", "stop")], reach=["accepted", "refused"])
def kube(x, call):
    """the Kubernetes backend takes each cluster's token from that cluster's secret"""
    import base64
    import dask_gateway_server.backends.kubernetes.backend as k
    from collections import defaultdict
    from dask_gateway_server.utils import Flag

    async def main():
        toks = [x.choice("tok1", ["aa", "ab"]), x.choice("tok2", ["bb", "b"])]
        b = k.KubeBackend()
        b.cluster_waiters, b.clusters, b.username_to_clusters = defaultdict(Flag), {}, defaultdict(dict)
        phases = [x.choice("phase%d" % i, ["Pending", "Running", "Stopped"]) for i in range(2)]
        loaded = [x.flip("secret%d" % i) for i in range(2)]
        cache = {}
        for i in range(2):
            cache["ns.c%d" % (i + 1)] = {"metadata": {"namespace": "ns", "name": "c%d" % (i + 1), "creationTimestamp": "2020-01-01T00:00:00Z"},
                                         "spec": {"username": "alice", "options": {}, "config": {}},
                                         "status": dict({"phase": phases[i]}, **({"credentials": "s%d" % (i + 1)} if loaded[i] else {}))}
        b.informer = Stub(x, "informer", get=cache.get)
        e = lambda s: base64.b64encode(s.encode()).decode()

        async def read(name, ns):
            i = {"s1": 0, "s2": 1}[name]
            return Stub(x, "secret", data={"dask.crt": e("crt%d" % i), "dask.pem": e("pem"), "api-token": e(toks[i])})
        patches = []

        async def patch(group, version, ns, plural, name, ops, **kw):
            patches.append((ns, plural, name, ops))
        b.core_client = Stub(x, "core", read_namespaced_secret=read)
        b.custom_client = Stub(x, "custom", patch_namespaced_custom_object=patch)
        for n in cache:
            await b.sync_cluster(n)
        name = x.choice("name", ["ns.c1", "ns.c9"])
        h = x.choice("scheme", ["token", "Basic"])
        if not x.flip("bare"):
            h = h + " " + x.str("v", 2, 1)
            x.assume(h[len(h) - 1] != " ")
        auth = TrustAuth(None, web.HTTPUnauthorized(reason="Authentication required"))
        app = {"backend": b, "authenticator": auth, "log": Log()}
        method, path = ("POST", URL + "/heartbeat") if call == "heartbeat" else ("DELETE", URL)
        req = Request(x, method, path, app, match_info={"cluster_name": name}, msg=dict(MSG), headers={"Authorization": h})
        resp = await handler_for(x, method, path)(req)
        x.observe("status", resp.status)
        x.observe("patches", patches)
        known = name == "ns.c1" and loaded[0] and phases[0] != "Stopped"
        good = False if not known else h == "token " + toks[0]
        if good:
            x.check(resp.status == (200 if call == "heartbeat" else 204), "the cluster's token is accepted")
            want = [{"op": "add", "path": "/spec/replicas", "value": 1}] if call == "heartbeat" else [{"op": "add", "path": "/spec/active", "value": False}]
            x.check(patches == [("ns", "daskclusters", "c1", want)], "exactly that cluster's object is patched")
            x.reach("accepted")
        else:
            x.check(resp.status == 401 and not patches, "without the cluster's token the call is refused without effect")
            x.check(auth.calls == (1 if call == "stop" else 0), "a stop request falls back to user authentication")
            x.reach("refused")
    run_coro(x, main)
