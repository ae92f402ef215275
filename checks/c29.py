"""C29: the client reports every server answer as the right result or error."""
import asyncio
import base64
import datetime
import warnings

import aiohttp

from clientlib import Client, report
from sesslib import Answer, refused
from symx.env import Stub, unit

TECHNIQUE = "symbolic execution of the real client (Python source) against scripted server answers with symbolic status codes, messages, credentials and names; z3 over integers and strings"
LEVEL_NOTE = "Every public request of the client, with every status code of both answers (2xx, 4xx, 5xx), messages up to 3 characters, every form of error body, basic and token credentials up to 3 characters, and failing connections; every sequence of up to 3 (thorough 4) reports while waiting for a cluster."
BOUNDS = "messages, names and credentials of up to 3 characters; 3 (thorough 4) polls while waiting"
OUTSIDE = "Kerberos (not installed here); redirects, which aiohttp follows itself"
ASSUMPTIONS = ["aiohttp's response object: json() fails on bodies that aren't JSON, raise_for_status() raises for 400 and above"]

OPS = {
    "list": ("GET", "/api/v1/clusters/", None),
    "get": ("GET", "/api/v1/clusters/", None),
    "submit": ("POST", "/api/v1/clusters/", {"cluster_options": {"a": 1}}),
    "stop": ("DELETE", "/api/v1/clusters/", None),
    "scale": ("POST", "/scale", {"count": 3}),
    "adapt": ("POST", "/adapt", {"minimum": 1, "maximum": 4, "active": True}),
    "versions": ("GET", "/api/version", None),
    "options": ("GET", "/api/v1/options", None),
}


def good(op, name):
    return {"list": {"c1": report(), "c2": report("FAILED", "c2")}, "get": report("RUNNING", name), "submit": {"name": name}, "stop": ValueError("no body"),
            "versions": {"version": "1"}, "options": {"cluster_options": []}}[op]


def start(g, op, name):
    return {"list": lambda: g.list_clusters(), "get": lambda: g.get_cluster(name), "submit": lambda: g.submit(a=1), "stop": lambda: g.stop_cluster(name), "scale": lambda: g.scale_cluster(name, 3),
            "adapt": lambda: g.adapt_cluster(name, minimum=1, maximum=4), "versions": lambda: g.get_versions(), "options": lambda: g.cluster_options()}[op]()


def judge_result(x, op, r, name):
    if op == "list":
        x.check([c.name for c in r] == ["c1", "c2"] and [c.status.name for c in r] == ["RUNNING", "FAILED"], "the clusters listed are returned")
    elif op == "get":
        x.check(r.name == name and r.status.name == "RUNNING", "the report is returned")
    elif op == "submit":
        x.check(r == name, "the name of the new cluster is returned")
    elif op == "versions":
        x.check(r["server"] == {"version": "1"} and "version" in r["client"], "both versions are returned")
    elif op == "options":
        x.check(not dict(r), "the options are returned")
    else:
        x.check(r is None, "no result")


@unit("request", params=[{"op": op, "auth": "basic"} for op in OPS] + [{"op": "list", "auth": "jupyterhub"}, {"op": "list", "auth": "custom"}], reach=["result", "ValueError", "server error", "other", "broken"])
def request(x, op, auth):
    """one request with any answers"""
    name = x.str("name", 2, 2, alphabet="abcdef0123456789")
    first, second = x.int("first", 200, 599), x.int("second", 200, 599)
    for s in (first, second):
        x.assume(x.any(s < 300, s >= 400))
    body = None
    message = x.str("message", 2, 1)
    broken = warn = None
    warned = []
    user, password, token = (x.str(n, 2, 1, alphabet="abc\xe9") for n in ("user", "password", "token"))
    calls = []
    encoded = []
    if x.symbolic:
        def encode(s, *a, **kw):
            encoded.append(s)
            return b"PLACE"
        x.model(base64.b64encode, encode)

    def script(method, url, kw):
        nonlocal body, broken, warn
        calls.append((method, url, dict(kw)))
        k = len(calls)
        if x.flip("broken%d" % k):
            broken = k
            return fail()
        s = first if k == 1 else second
        if s >= 400:
            body = "message" if k == 1 and s == 401 else x.choice("body", ["message", "other", "list", "text"])
            data = {"message": {"error": message}, "other": {"detail": 1}, "list": [1], "text": ValueError("not json")}[body]
            return Answer(x, s, data, "plain")
        if op in ("scale", "adapt"):
            warn = x.choice("warn", [None, "no answer", "scaled down"])
            if warn == "no answer":
                return Answer(x, s, ValueError("no body"))
            return Answer(x, s, {"ok": warn is None, "msg": warn})
        return Answer(x, s, good(op, name))

    async def fail():
        raise refused()

    with Client(x, script) as c:
        c.patch.set(warnings, "warn", lambda m, *a, **kw: warned.append(m))
        from dask_gateway import BasicAuth, JupyterHubAuth
        from dask_gateway.auth import GatewayAuth
        asked = []

        class Custom(GatewayAuth):
            def pre_request(self, resp):
                asked.append(("pre", resp.status))
                return {"X-Mine": "1"}, "context"

            def post_response(self, resp, context=None):
                asked.append(("post", resp.status, context))
        a = {"basic": lambda: BasicAuth(user, password), "jupyterhub": lambda: JupyterHubAuth(token), "custom": Custom}[auth]()

        async def main():
            g = c.m.Gateway("http://host:8000/gw/", auth=a, asynchronous=True)
            result = exc = None
            try:
                result = await start(g, op, name)
            except (Exception, asyncio.CancelledError) as e:
                exc = e
            n = 2 if broken != 1 and first == 401 else 1
            x.check(len(calls) == n, "one request, and a second one only after 401", info={"sent": len(calls)})
            method, path, json = OPS[op]
            for m, url, kw in calls:
                base = "http://host:8000/gw"
                want = base + path if op in ("list", "submit", "versions", "options") else base + "/api/v1/clusters/" + name + (path if op in ("scale", "adapt") else "")
                x.check(m == method and url == want, "the request goes to the right place", info={"method": m})
                x.check(kw.get("json") == json, "the request carries its data")
            x.check(not (calls[0][2].get("headers") or {}), "the first request carries no credentials")
            if n == 2:
                h = calls[1][2].get("headers") or {}
                if auth == "basic":
                    plain = (user + ":" + password).encode("latin1")
                    if x.symbolic:
                        x.check(len(encoded) == 1 and encoded[0] == plain, "the user's name and password are sent")
                        x.check(h["Authorization"] == "Basic PLACE", "basic credentials are sent")
                    else:
                        x.check(h["Authorization"] == "Basic " + base64.b64encode(plain).decode(), "the user's name and password are sent")
                elif auth == "jupyterhub":
                    x.check(h["Authorization"] == "jupyterhub " + token, "the token is sent")
                else:
                    x.check(h == {"X-Mine": "1"}, "the headers of the authentication are sent")
                    x.check(asked[0] == ("pre", 401), "the authentication sees the refusal")
                    x.check(len(asked) == (1 if broken == 2 else 2) and (broken == 2 or x.eq(asked[1][1], second) and asked[1][2] == "context"), "the authentication sees the answer")
            if broken is not None and broken <= n:
                x.check(isinstance(exc, aiohttp.ClientConnectionError), "a failed connection is reported")
                x.reach("broken")
                return
            final = second if n == 2 else first
            if final < 400:
                if exc is not None:
                    raise exc
                judge_result(x, op, result, name)
                x.check(len(warned) == (warn == "scaled down") and all(isinstance(m, c.m.GatewayWarning) and m.args == ("scaled down",) for m in warned), "the server's warning is passed on")
                x.reach("result")
                return
            x.check(exc is not None, "an error answer is an error")
            text = message if body == "message" else "plain"
            if x.any(final == 404, final == 422):
                x.check(type(exc) is ValueError, "404 and 422 are ValueErrors", info={"raised": repr(type(exc))})
                x.check(exc.args[0] == text, "the server's message is reported")
                x.reach("ValueError")
            elif final == 409:
                x.check(type(exc) is c.m.GatewayClusterError, "409 is a GatewayClusterError", info={"raised": repr(type(exc))})
                x.check(exc.args[0] == text, "the server's message is reported")
            elif final == 500:
                x.check(type(exc) is c.m.GatewayServerError, "500 is a GatewayServerError", info={"raised": repr(type(exc))})
                x.check(exc.args[0] == text, "the server's message is reported")
                x.reach("server error")
            else:
                x.check(isinstance(exc, aiohttp.ClientResponseError), "other errors are HTTP errors", info={"raised": repr(type(exc))})
                x.check(x.eq(exc.status, final), "the status is reported")
                x.reach("other")
            g2 = await g.__aenter__()
            x.check(g2 is g, "the client is its own context")
            await g.__aexit__(None, None, None)
            x.check(all(s.closed for s in c.sessions), "connections are released")
        c.run(main())


KINDS = ("PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED")


@unit("wait", params=[{"n": 3}], thorough_params=[{"n": 4}], reach=["running", "failed", "error"])
def wait(x, n):
    """connecting to a cluster that is starting"""
    sent = []

    def script(method, url, kw):
        x.check(method == "GET" and url == "http://host/api/v1/clusters/c1?wait", "the cluster's state is asked for")
        i = len(sent)
        what = x.choice("answer%d" % i, list(KINDS) + ["timeout", "status", "broken"] if i < n - 1 else ["RUNNING", "FAILED"])
        sent.append((c.loop.now, what))
        if what == "timeout":
            return fail(asyncio.TimeoutError())
        if what == "broken":
            return fail(refused())
        if what == "status":
            s = x.int("status%d" % i, 402, 599)
            sent[-1] = (c.loop.now, what, s)
            return Answer(x, s, {"error": "message"})
        return Answer(x, 200, report(what))

    async def fail(e):
        raise e

    def rpc(addr, connection_args=None, **kw):
        x.check(addr == "gateway://host:80/c1", "the scheduler is reached through the proxy")
        return Stub(x, "rpc", live_comm=no_comm, close_rpc=close_rpc)

    async def no_comm():
        raise OSError("no comm")

    async def close_rpc():
        pass

    with Client(x, script) as c:
        c.patch.set(c.m, "rpc", rpc)
        c.patch.set(c.m.GatewaySecurity, "get_connection_args", lambda self, role: {})

        async def main():
            h = c.m.GatewayCluster.from_name("c1", address="http://host", asynchronous=True)
            exc = None
            try:
                r = await h
                x.check(r is h, "the handle is returned")
            except Exception as e:
                exc = e
            last = sent[-1]
            for a in sent[:-1]:
                x.check(a[1] in ("PENDING", "STOPPING", "timeout"), "only a cluster that isn't decided is asked for again", info={"answers": [q[1] for q in sent]})
            for a, b in zip(sent, sent[1:]):
                x.check(x.all(b[0] - a[0] > 0, b[0] - a[0] <= 5), "a moment later")
            x.check(last[1] not in ("PENDING", "STOPPING", "timeout"), "waiting goes on until the cluster is decided", info={"answers": [q[1] for q in sent]})
            if last[1] == "RUNNING":
                x.check(exc is None and h.status == "running", "a running cluster is returned")
                x.check(h.scheduler_address == "gateway://host:80/c1" and h.dashboard_link == "http://host/clusters/c1/status", "its addresses are those reported")
                x.check(h.security is not None and (h.security.tls_cert, h.security.tls_key) == ("CERT", "KEY"), "its credentials are those reported")
                x.reach("running")
            elif last[1] in ("FAILED", "STOPPED"):
                x.check(type(exc) is c.m.GatewayClusterError, "a cluster that failed or stopped is an error")
                x.reach("failed")
            elif last[1] == "broken":
                x.check(isinstance(exc, aiohttp.ClientConnectionError), "a failed connection is reported")
            else:
                x.check(exc is not None, "an error answer is an error")
                x.check(type(exc) is ValueError or not x.any(last[2] == 404, last[2] == 422), "a vanished cluster is reported")
                x.reach("error")
            await h.close()
        c.run(main())


@unit("credentials", reach=["basic", "token", "custom", "none"])
def credentials(x):
    """the authentication that the configuration asks for"""
    kind = x.choice("kind", ["basic", "jupyterhub", "dask_gateway.auth.BasicAuth", "dask_gateway.options.Options", "dask_gateway.auth.Nothing"])
    given = x.choice("given", ["type", "class", "config", "instance"])
    user, password = x.choice("user", [None, "u", "{WHO}"]), x.choice("password", [None, "p"])
    with Client(x, None) as c:
        import dask
        import dask_gateway.auth as a
        c.patch.set(a.getpass, "getuser", lambda: "login")
        c.patch.set(a.os, "environ", {"WHO": "somebody", **({"JUPYTERHUB_API_TOKEN": "envtoken"} if password else {})})
        basic = kind in ("basic", "dask_gateway.auth.BasicAuth")
        kw = {k: v for k, v in ((("username", user), ("password", password)) if basic else (("api_token", user),)) if v is not None}
        with dask.config.set({"gateway.auth.type": kind if given == "config" else None, "gateway.auth.kwargs": None if given == "instance" else kw}):
            try:
                arg = kind
                if given == "class":
                    arg = a._import_object(kind) if "." in kind else {"basic": a.BasicAuth, "jupyterhub": a.JupyterHubAuth}[kind]
                elif given == "config":
                    arg = None
                elif given == "instance":
                    arg = (a.BasicAuth if basic else a.JupyterHubAuth)(**kw)
                r = a.get_auth(arg)
            except (ImportError, TypeError, ValueError) as e:
                if kind.endswith("Nothing"):
                    x.check(isinstance(e, ImportError) or given == "instance", "an unknown kind of authentication is an error")
                elif kind.endswith("Options"):
                    x.check(isinstance(e, TypeError) or given == "instance", "something else than an authentication is an error")
                else:
                    x.check(not basic and user is None and password is None, "the authentication can be set up", info={"error": repr(e)})
                x.reach("none")
                return
            x.check(given == "instance" or not kind.endswith(("Nothing", "Options")), "only an authentication is taken for one")
            who = {"{WHO}": "somebody" if given != "instance" else "{WHO}"}.get(user, user)
            if basic:
                x.check(type(r) is a.BasicAuth and r.username == (who or "login") and r.password == (password or ""), "the configured user")
                x.reach("basic" if kind == "basic" else "custom")
            else:
                x.check(type(r) is a.JupyterHubAuth and r.api_token == (who or "envtoken"), "the configured token")
                x.reach("token")
            x.check(given != "instance" or r is arg, "a given authentication is used as it is")


@unit("report", reach=["seen"])
def report_(x):
    """what is reported about a cluster"""
    status = x.choice("status", list(KINDS))
    route = x.choice("route", [None, "", "/clusters/c1/status"])
    full = x.flip("full")
    option = x.int("option", 0, 100)
    sel = x.choice("select", [None, "pending", "Stopped", ["running", "FAILED"], "enum", "none"])
    start, stop = 1700000000123, x.choice("stop", [None, 1700000005000])

    def script(method, url, kw):
        q = {None: "", "pending": "?status=PENDING", "Stopped": "?status=STOPPED", "enum": "?status=STOPPING"}
        want = "?status=RUNNING,FAILED" if isinstance(sel, list) else q[sel]
        x.check(url == "http://host:9/api/v1/clusters/" + want, "the clusters asked for", info={"url": url})
        r = {"name": "c1", "dashboard_route": route, "status": status, "start_time": start, "stop_time": stop, "options": {"o": option}}
        if full:
            r.update(tls_cert="CERT", tls_key="KEY")
        return Answer(x, 200, {"c1": r})
    with Client(x, script) as c:
        async def main():
            g = c.m.Gateway("http://host:9", public_address="https://pub/x/", proxy_address=8786, asynchronous=True)
            if sel == "none":
                try:
                    await g.list_clusters(status="nothing")
                    x.check(False, "an unknown status is refused")
                except ValueError:
                    return
            (r,) = await g.list_clusters(status=c.m.ClusterStatus.STOPPING if sel == "enum" else sel)
            x.check(r.status is c.m.ClusterStatus[status], "the status reported")
            x.check(r.name == "c1" and r.options == {"o": option}, "name and options as reported")
            x.check(r.scheduler_address == ("gateway://host:8786/c1" if status == "RUNNING" else None), "only a running cluster has a scheduler")
            x.check(r.dashboard_link == ("https://pub/x" + route if route else None), "the dashboard is linked from the public address")
            x.check(r.start_time == datetime.datetime.fromtimestamp(start / 1000), "the start time reported")
            x.check(r.stop_time == (datetime.datetime.fromtimestamp(stop / 1000) if stop is not None else None), "the stop time reported")
            x.check((r.security is None) == (not full) and (not full or (r.security.tls_cert, r.security.tls_key) == ("CERT", "KEY")), "credentials when reported")
            x.reach("seen")
        c.run(main())
