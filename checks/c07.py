"""C07: scale and adapt requests are validated and clamped."""
from restlib import Log, TrustAuth, body_of, request
from symx.env import Stub, unit

TECHNIQUE = "symbolic execution of the real route handlers (Python source), z3 over all counts, bounds and limits"
LEVEL_NOTE = ("All integers (unbounded) for count, minimum, maximum and a non-negative limit, all presence combinations; "
              "trusts the Python-to-z3 instrumentation, which is validated by replaying path models on the real code.")
BOUNDS = "one request per path; counts, bounds and limits are unbounded integers; active is a symbolic boolean, null or absent"
OUTSIDE = "JSON booleans given as counts; adapt bounds that are not integers or null; the scheduler's own handling (C25)"
ASSUMPTIONS = ["authentication and lookup of the cluster succeed (C01)", "aiohttp request/response objects behave as their stubs"]


def setup(x, limit_kinds=("absent", "none", "int")):
    from dask_gateway_server import models
    from dask_gateway_server.utils import FrozenAttrDict
    from dask_gateway_server.backends.base import PublicException
    user = models.User("alice")
    kind = x.choice("limit_kind", limit_kinds)
    cfg = {} if kind == "absent" else {"cluster_max_workers": None if kind == "none" else x.int("limit", 0)}
    limit = cfg.get("cluster_max_workers")
    cluster = models.Cluster("c1", "alice", "tok", {}, FrozenAttrDict(cfg), models.ClusterStatus.RUNNING,
                             scheduler_address="tls://s", api_address="http://api")
    sent = []
    fails = x.flip("delivery_fails")

    async def get_cluster(name, wait=False, **kw):
        return cluster

    async def forward(c, msg, *a, **kw):
        sent.append((c, msg))
        if fails:
            raise PublicException("scheduler unreachable")
    backend = Stub(x, "backend", get_cluster=get_cluster, forward_message_to_scheduler=forward)
    app = {"backend": backend, "authenticator": TrustAuth(user), "log": Log()}
    return app, cluster, limit, sent, fails


def bad_values(x):
    kind = x.choice("bad", ["absent", "null", "str", "float", "list", "dict"])
    return {"absent": {}, "null": {"count": None}, "str": {"count": "3"}, "float": {"count": 2.0}, "list": {"count": [1]}, "dict": {"count": {}}}[kind]


PATH = "/api/v1/clusters/{cluster_name}/"


@unit("scale", reach=["clamped", "unchanged", "conflict"])
def scale(x):
    app, cluster, limit, sent, fails = setup(x)
    count = x.int("count")
    resp, _ = request(x, "POST", PATH + "scale", app, match_info={"cluster_name": "c1"}, msg={"count": count})
    body = body_of(x, resp)
    x.observe("status", resp.status)
    x.observe("sent", [m for _, m in sent])
    if count < 0:
        x.check(resp.status == 422, "a negative count answers 422")
        x.check(len(sent) == 0, "a negative count is not forwarded")
        return
    x.check(len(sent) == 1 and sent[0][0] is cluster, "a valid count is forwarded once to the cluster")
    msg = sent[0][1]
    x.check(msg.get("op") == "scale", "the message is a scale request")
    got = msg["count"]
    if limit is not None:
        x.check(got <= limit, "forwarded count is at most the limit")
        x.check(x.implies(count <= limit, got == count), "a count within the limit is unchanged")
        x.check(x.implies(count > limit, got == limit), "a count above the limit becomes the limit")
        lowered = count > limit
    else:
        x.check(got == count, "a count without limit is unchanged")
        lowered = False
    if fails:
        x.check(resp.status == 409, "a failed delivery answers 409")
        x.reach("conflict")
        return
    x.check(resp.status == 200, "a delivered request answers 200")
    if lowered:
        x.check(body["ok"] is False and bool(body["msg"]), "the reply says that the count was lowered")
        x.reach("clamped")
    else:
        x.check(body["ok"] is True and not body["msg"], "the reply does not claim a change")
        x.reach("unchanged")


@unit("scale_invalid", reach=["refused"])
def scale_invalid(x):
    app, cluster, limit, sent, fails = setup(x)
    resp, _ = request(x, "POST", PATH + "scale", app, match_info={"cluster_name": "c1"}, msg=bad_values(x))
    x.observe("status", resp.status)
    x.check(resp.status == 422, "a count that is no integer answers 422")
    x.check(len(sent) == 0, "a count that is no integer is not forwarded")
    x.reach("refused")


@unit("adapt", reach=["lowered", "unchanged", "unlimited"])
def adapt(x):
    app, cluster, limit, sent, fails = setup(x)
    msg = {}
    for k in ("minimum", "maximum"):
        kind = x.choice(k + "_kind", ["absent", "null", "int"])
        if kind == "null":
            msg[k] = None
        elif kind == "int":
            msg[k] = x.int(k)
    akind = x.choice("active_kind", ["absent", "bool"])
    if akind == "bool":
        msg["active"] = x.bool("active")
    resp, _ = request(x, "POST", PATH + "adapt", app, match_info={"cluster_name": "c1"}, msg=dict(msg))
    body = body_of(x, resp)
    lo, hi = msg.get("minimum"), msg.get("maximum")
    x.observe("status", resp.status)
    x.observe("sent", [m for _, m in sent])
    x.check(len(sent) == 1 and sent[0][0] is cluster, "the request is forwarded once to the cluster")
    out = sent[0][1]
    x.check(out.get("op") == "adapt", "the message is an adapt request")
    x.check(x.eq(out["active"], msg.get("active", True)), "the active flag is unchanged, true when absent")
    lowered = False
    if limit is None:
        x.check(x.eq(out["minimum"], lo), "without limit the minimum is unchanged")
        x.check(x.eq(out["maximum"], hi), "without limit the maximum is unchanged")
        x.reach("unlimited")
    else:
        x.check(out["minimum"] is not None and out["maximum"] is not None, "with a limit both bounds are present")
        x.check(x.all(out["minimum"] <= limit, out["maximum"] <= limit), "with a limit both bounds are at most the limit")
        if lo is not None:
            x.check(x.implies(lo <= limit, out["minimum"] == lo), "a minimum within the limit is unchanged")
            x.check(x.implies(lo > limit, out["minimum"] == limit), "a minimum above the limit becomes the limit")
        else:
            x.check(out["minimum"] == 0, "an absent minimum becomes zero")
        if hi is not None:
            x.check(x.implies(hi <= limit, out["maximum"] == hi), "a maximum within the limit is unchanged")
            x.check(x.implies(hi > limit, out["maximum"] == limit), "a maximum above the limit becomes the limit")
        else:
            x.check(out["maximum"] == limit, "an absent maximum becomes the limit")
        lowered = x.any(lo is not None and lo > limit, hi is not None and hi > limit)
    if fails:
        x.check(resp.status == 409, "a failed delivery answers 409")
        return
    x.check(resp.status == 200, "a delivered request answers 200")
    if lowered:
        x.check(body["ok"] is False and bool(body["msg"]), "the reply says that a bound was lowered")
        x.reach("lowered")
    else:
        x.check(body["ok"] is True and not body["msg"], "the reply does not claim a change")
        x.reach("unchanged")
