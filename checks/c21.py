"""C21: messages to a scheduler are delivered or reported as failed."""
import asyncio

import aiohttp
from aiohttp import web

import restlib
from dblib import VALID, Database, add_cluster, cleanup, make_backend
from sesslib import Answer, Session, refused
from symx.env import set_traits, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real scale and adapt routes and the forwarding code (Python source) with symbolic requests, retry limits and scheduler answers; z3"
LEVEL_NOTE = "For every request of the allowed form, every cluster state, retry limits 0 to 4 (thorough 6) and every sequence of scheduler answers (success, any HTTP status, refused connection, timeout), also while the cluster is being stopped by someone else."
BOUNDS = "one request; retry limit 0..4 (thorough 6); scheduler answers: any status 200..599, connection refused, timeout; one other stop request at any attempt; counts 0..10^6"
OUTSIDE = "cancellation of the request by its sender; the HTTP library itself; what the scheduler does with the message (C25)"
ASSUMPTIONS = ["the HTTP client reports status 400 and above as an error when asked to, as aiohttp's does"]

replay_cleanup = cleanup


class Auth:
    def __init__(self, user):
        self.user = user

    async def authenticate_and_handle(self, request, handler):
        request["user"] = self.user
        return await handler(request)


def message(x, kind):
    """-> request body, the message the scheduler has to get"""
    if kind == "scale":
        n = x.int("count", 0, 10**6)
        return {"count": n}, {"op": "scale", "count": n}
    lo = None if x.flip("no_minimum") else x.int("minimum", 0, 10**6)
    hi = None if x.flip("no_maximum") else x.int("maximum", 0, 10**6)
    out = {"op": "adapt", "minimum": lo, "maximum": hi, "active": True}
    body = {"minimum": lo, "maximum": hi}
    if x.flip("with_active"):
        out["active"] = body["active"] = x.choice("active", [True, False])
    return body, out


def scheduler(x, limit, on_attempt=None):
    """-> script of one scheduler, list of outcomes so far"""
    log = []

    def script(method, url, kw):
        i = len(log)
        if i >= limit:
            x.check(False, "no more attempts than configured")
        if on_attempt is not None:
            on_attempt(i)
        kind = x.choice("answer%d" % i, ["status", "refused", "timeout"])
        if kind == "status":
            s = x.int("status%d" % i, 200, 599)
            log.append(s < 400)
            return Answer(x, s)
        log.append(False)
        raise refused() if kind == "refused" else asyncio.TimeoutError()
    return script, log


def judge_sent(x, sent, name, address, token, want):
    for method, url, kw in sent:
        x.check(method == "POST" and url == address + "/api/comm", "a message goes to the cluster's own scheduler")
        h = {k.lower(): v for k, v in (kw.get("headers") or {}).items()}
        x.check(h.get("authorization") == "token " + token, "a message carries the cluster's own token")
        got = kw.get("json")
        x.check(type(got) is dict and set(got) == set(want), "the message has the requested operation")
        x.check(x.all(*[x.eq(got[k], want[k]) for k in want]), "the message says what was requested")


async def ask(x, b, kind, body):
    import dask_gateway_server.models as models
    app = {"backend": b, "authenticator": Auth(models.User("alice"))}
    h = restlib.handler_for(x, "POST", "/api/v1/clusters/{cluster_name}/" + kind)
    req = restlib.Request(x, "POST", "/", app, match_info={"cluster_name": "c1"}, msg=body)
    try:
        return (await h(req)).status
    except web.HTTPException as exc:
        return exc.status
    except (asyncio.TimeoutError, OSError, aiohttp.ClientError):
        return 500      # what aiohttp makes of an unexpected exception


PARAMS = [{"kind": k, "retries": r} for k in ("scale", "adapt") for r in (0, 1, 2, 3)] + [{"kind": "scale", "retries": 4}]


@unit("database", params=PARAMS, thorough_params=[{"kind": k, "retries": r} for k in ("scale", "adapt") for r in (5, 6)], reach=["delivered", "failed"])
def database(x, kind, retries):
    run_coro(x, lambda: database_run(x, kind, retries))


async def database_run(x, kind, retries):
    body, want = message(x, kind)
    with Database(x) as db:
        J = db.m.JobStatus
        st, tgt = x.choice("state", VALID(J)) if retries == 3 else (J.RUNNING, J.RUNNING)
        add_cluster(db, 1, "c1", st, tgt, token="tok-one", api_address="http://one/base", config={"cluster_max_workers": None})
        add_cluster(db, 2, "c2", J.RUNNING, J.RUNNING, token="tok-two", api_address="http://two")
        b = make_backend(x, db, cluster_heartbeat_timeout=30.0)
        set_traits(b, scheduler_api_retries=retries)
        other = x.choice("stopped_at", list(range(-1, retries))) if retries in (1, 2) else -1

        def on_attempt(i):
            if i == other:
                c = b.db.get_cluster("c1")
                b.db.update_cluster(c, target=J.STOPPED)
        script, log = scheduler(x, max(1, retries), on_attempt)
        b.session = Session(x, script)
        before = len(b.queue.items)
        status = await ask(x, b, kind, body)
        judge_sent(x, b.session.sent, "c1", "http://one/base", "tok-one", want)
        after = b.db.get_cluster("c1")
        c2 = b.db.get_cluster("c2")
        x.check(c2.target == J.RUNNING and c2.status == J.RUNNING, "other clusters are left alone")
        rows = {r["name"]: r for r in db.rows("clusters")}
        running = st == J.RUNNING and tgt == J.RUNNING
        if not running:
            x.check(not b.session.sent, "nothing is sent to a cluster that is not running")
            x.check(status == 409, "the requester gets a conflict error")
            x.check(after.target == tgt and len(b.queue.items) == before, "the cluster is left as it is")
            x.reach("not running")
            return
        if log and x.any(log[-1]):
            x.check(x.all(*[x.no(ok) for ok in log[:-1]]), "a delivered message is not sent again")
            x.check(status == 200, "a delivered message is reported as success")
            x.check(after.target == (J.STOPPED if other >= 0 and len(log) > other else J.RUNNING), "the cluster is not told to stop")
            x.reach("delivered")
        else:
            x.check(len(log) == max(1, retries), "the message is tried as often as configured")
            x.check(status == 409, "the requester gets a conflict error")
            x.check(after.target == (J.STOPPED if other >= 0 else J.FAILED), "the cluster is told to stop as failed")
            x.check(x.eq(rows["c1"]["target"], after.target), "that is recorded")
            if other < 0:
                x.check(any(i is after for i in b.queue.items), "the cluster is scheduled for clean-up")
            x.reach("failed")


@unit("any_backend", params=[{"kind": k} for k in ("scale", "adapt")], reach=["delivered", "failed", "not running"])
def any_backend(x, kind):
    """the forwarding code every backend inherits, for any cluster status and limits"""
    import dask_gateway_server.models as models
    from dask_gateway_server.backends.base import Backend
    body, want = message(x, kind)
    st = x.choice("status", list(models.ClusterStatus))
    stops = []

    class B(Backend):
        async def get_cluster(self, name, wait=False):
            return models.Cluster(name=name, username="alice", token="tok", options={}, config={}, status=st, api_address="http://" + name, start_time=0, stop_time=None)

        async def stop_cluster(self, name, failed=False):
            stops.append((name, failed))
    b = B()
    retries = x.choice("retries", [0, 1, 2])
    set_traits(b, scheduler_api_retries=retries, api_url="http://gw/api")
    script, log = scheduler(x, max(1, retries))
    b.session = Session(x, script)
    status = run_coro(x, lambda: ask(x, b, kind, body))
    judge_sent(x, b.session.sent, "c1", "http://c1", "tok", want)
    if st != models.ClusterStatus.RUNNING:
        x.check(not b.session.sent and not stops and status == 409, "a request for a cluster that is not running is refused")
        x.reach("not running")
    elif log and x.any(log[-1]):
        x.check(not stops and status == 200, "a delivered message is reported as success")
        x.reach("delivered")
    else:
        x.check(len(log) == max(1, retries), "the message is tried as often as configured")
        x.check(stops == [("c1", True)], "the cluster is told to stop as failed")
        x.check(status == 409, "the requester gets a conflict error")
        x.reach("failed")
