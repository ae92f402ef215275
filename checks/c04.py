"""C04: authenticators accept exactly the right requests and identities."""
import base64
import sys
import types

from aiohttp import web

from restlib import Log, Request
from symx.env import Stub, set_traits, sync, unit

TECHNIQUE = "symbolic execution of the real authenticators (Python source) over symbolic credentials, hub answers and negotiation results; z3"
LEVEL_NOTE = ("Decoded credentials of up to 5 arbitrary characters (including non-ASCII bytes), passwords of up to 2, every integer return code and hub status, names and scopes of bounded length; "
              "base64, kerberos and the hub's HTTP client are stubs.")
BOUNDS = "one request; credentials up to 5 bytes, configured password up to 2 characters, kerberos principals up to 4 characters and any return codes, hub status any integer 200..599, names up to 2 characters after an optional kind prefix, up to 2 scopes"
OUTSIDE = "longer credentials; the base64 codec; the kerberos library; network failures of the hub connection"
ASSUMPTIONS = ["base64 decoding is the standard one", "pykerberos and aiohttp behave as their stubs"]

PLACE = "Q1JFRA=="


def outcome(f):
    try:
        return sync(f), None
    except web.HTTPException as exc:
        return None, exc


def mkreq(x, h):
    return Request(x, "GET", "/", {}, headers={} if h is None else {"Authorization": h})


def bad_header(x, good):
    return x.choice("h", [h for h in [None, "", "Basic", "Negotiate", "jupyterhub", "token", "Basic QQ", "Negotiate QQ", "jupyterhub QQ", "token QQ", "Bearer QQ==", "x y z"] if h is None or h.split(" ")[0] != good])


@unit("simple", params=[{"n": n} for n in range(0, 6)], reach=["decided"])
def simple(x, n):
    import dask_gateway_server.auth as a
    auth = a.SimpleAuthenticator()
    raw = x.bytes("cred", n, n)
    pw = x.choice("has_password", ["none", "some"]) if n else "some"
    password = None if pw == "none" else x.str("password", 2)
    set_traits(auth, password=password, cookie_name="ck")
    if x.symbolic:
        def dec(s, *a, **kw):
            if s != PLACE:
                x.missing("base64 of other text")
            return raw
        for f in (base64.b64decode, base64.standard_b64decode, base64.urlsafe_b64decode):
            x.model(f, dec)
        # the placeholder itself is concrete, so it is passed as a symbolic-typed marker
        h = Marker("Basic ", PLACE)
    else:
        h = "Basic " + base64.b64encode(raw).decode()
    user, exc = outcome(auth.authenticate(mkreq(x, h)))
    user = user[0] if isinstance(user, tuple) else user
    colon = x.any(*[raw[i] == 58 for i in range(n)])
    ascii_ = x.all(*[raw[i] < 128 for i in range(n)])
    x.observe("user", None if user is None else user.name)
    x.reach("decided")
    if user is None:
        x.check(exc.status == 401 and exc.headers.get("WWW-Authenticate") == "Basic", "a refused request is asked to authenticate")
    ok = False
    for i in range(n):
        first = x.all(raw[i] == 58, *[raw[j] != 58 for j in range(i)])
        name = raw[:i]
        if password is None or len(password) == 0:
            pw_ok = True
        elif len(password) != n - i - 1:
            pw_ok = False
        else:
            pw_ok = x.all(*[raw[i + 1 + j] == x.ord(password[j]) for j in range(len(password))])
        should = x.all(ascii_, first, pw_ok)
        ok = x.any(ok, should)
        if user is not None:
            same = len(user.name) == i and x.all(*[x.ord(user.name[j]) == raw[j] for j in range(i)])
            x.check(x.implies(should, same), "the user is the text before the first colon")
    x.check(x.iff(user is not None, ok), "accepted exactly with a user name and the configured password")
    x.check(x.any(user is None, not getattr(user, "admin", False)), "password users are no admins")


class Marker(str):
    """an Authorization header whose second word stands for the encoded credentials"""
    def __new__(cls, scheme, v):
        return str.__new__(cls, scheme + v)


@unit("simple_malformed", reach=["refused"])
def simple_malformed(x):
    import dask_gateway_server.auth as a
    auth = a.SimpleAuthenticator()
    set_traits(auth, password=x.choice("pw", [None, "s"]), cookie_name="ck")
    h = bad_header(x, "Basic") if x.flip("scheme") else x.choice("hb", ["Basic", "Basic !!!!", "Basic QQ", "Basic A", "Basic YQ=="])
    user, exc = outcome(auth.authenticate(mkreq(x, h)))
    x.observe("user", user is not None)
    x.check(user is None and exc.status == 401, "a request without usable credentials is asked to authenticate")
    x.reach("refused")


@unit("kerberos", reach=["accepted", "refused", "failed"])
def kerberos(x):
    import dask_gateway_server.auth as a

    class GSSError(Exception):
        pass
    init_rc, step_rc = x.int("init_rc"), x.int("step_rc")
    fail = x.choice("raises", [None, "init", "step", "response", "name"])
    full = x.str("principal", 4, alphabet="ab@/" if x.tier == "quick" else None)
    calls = []

    def at(step, *args):
        calls.append((step,) + args)
        if fail == step:
            raise GSSError(step)
    k = types.ModuleType("kerberos")
    k.GSSError = GSSError
    k.AUTH_GSS_COMPLETE = 1
    k.AUTH_GSS_CONTINUE = 0
    ctx = object()
    k.authGSSServerInit = lambda s: (at("init", s), (init_rc, ctx))[1]
    k.authGSSServerStep = lambda c, key: (at("step", c is ctx, key), step_rc)[1]
    k.authGSSServerResponse = lambda c: (at("response"), "RESP")[1]
    k.authGSSServerUserName = lambda c: (at("name"), full)[1]
    k.authGSSServerClean = lambda c: calls.append(("clean", c is ctx))
    old = sys.modules.get("kerberos")
    sys.modules["kerberos"] = k
    try:
        auth = a.KerberosAuthenticator()
        set_traits(auth, cookie_name="ck", service_name="HTTP")
        good = x.flip("good_header")
        h = "Negotiate KEY" if good else bad_header(x, "Negotiate")
        r, exc = outcome(auth.authenticate(mkreq(x, h)))
        x.observe("calls", [c[0] for c in calls])
        if not good:
            x.check(r is None and exc.status == 401 and exc.headers.get("WWW-Authenticate") == "Negotiate" and not calls, "without a negotiation header the client is asked to negotiate")
            x.reach("refused")
            return
        ok = x.all(fail is None, init_rc == 1, step_rc == 1)
        x.check(x.iff(r is not None, ok), "accepted exactly when every negotiation step succeeded")
        got_ctx = fail != "init"
        x.check([c for c in calls if c[0] == "clean"] == ([("clean", True)] if got_ctx else []), "the negotiation context is released")
        if r is None:
            x.check(exc.status == 500, "a failed negotiation is an error")
            x.reach("failed")
            return
        user, ctx2 = r
        x.check(("step", True, "KEY") in calls, "the client's key is what is verified")
        want = full.split("@", 1)[0]
        x.check(user.name == want, "the user is the principal without its realm")
        resp = Stub(x, "response", headers={})
        sync(auth.pre_response(None, resp, ctx2))
        x.check(resp.headers["WWW-Authenticate"] == "Negotiate RESP", "the server's answer is returned")
        x.reach("accepted")
    finally:
        if old is None:
            sys.modules.pop("kerberos", None)
        else:
            sys.modules["kerberos"] = old


def hub(x, status, data, calls):
    class Resp:
        reason = "reason"

        async def json(self):
            if data is None:
                x.missing("body of a failed hub answer")
            return data
    r = Resp()
    r.status = status

    async def get(url, **kw):
        calls.append((url, kw))
        return r
    return Stub(x, "session", get=get)


def hub_auth(x, status, data, scopes, service="dg"):
    import dask_gateway_server.auth as a
    auth = a.JupyterHubAuthenticator()
    set_traits(auth, cookie_name="ck", jupyterhub_api_url="http://hub/api", jupyterhub_api_token="t", use_service_access_scopes=scopes, jupyterhub_service_name=service)
    auth.ssl_context = None
    calls = []
    auth.session = hub(x, status, data, calls)
    return auth, calls


@unit("hub_status", reach=["accepted", "refused"])
def hub_status(x):
    status = x.int("status", 200, 599)
    auth, calls = hub_auth(x, status, {"name": "alice", "kind": "user"}, False)
    tok = x.str("token", 2, 1, alphabet=None)
    x.assume(x.all(tok[0] != " ", tok[len(tok) - 1] != " "))
    good = x.flip("good_header")
    h = "jupyterhub " + tok if good else bad_header(x, "jupyterhub")
    r, exc = outcome(auth.authenticate(mkreq(x, h)))
    x.observe("status", None if exc is None else exc.status)
    if not good:
        x.check(r is None and exc.status == 401 and not calls, "without a token the client is asked for one")
        x.reach("refused")
        return
    x.check(len(calls) == 1 and calls[0][0] == "http://hub/api/user", "the hub is asked once who the user is")
    x.check(calls[0][1]["headers"]["Authorization"] == "token " + tok, "the hub is asked about the client's token")
    x.check(x.iff(r is not None, status < 400), "a token is accepted exactly when the hub accepted it")
    if r is not None:
        x.check(r.name == "alice" and r.admin is False and len(r.groups) == 0, "the hub's user is the user")
        x.reach("accepted")
    else:
        want = x.ite(status == 404, 401, x.ite(status >= 500, 502, 500))
        x.check(exc.status == want, "hub failures map to 401, 502 or 500")
        x.reach("refused")


@unit("hub_scopes", params=[{"n": n} for n in (0, 1, 2)], reach=["decided"])
def hub_scopes(x, n):
    service = x.str("service", 2, 1)
    enforce = x.flip("enforce")
    scopes = []
    for i in range(n):
        k = x.choice("scope%d" % i, ["access:services", "access:services!", "access:services!service=", "access:services!service=*", "access:servers!service=*", "access:services!server=*", "*", "self"])
        scopes.append(k[:-1] + x.str("s%d" % i, 2 if n < 2 else 1, 1) if k.endswith("*") and len(k) > 1 else k)
    data = {"name": "alice", "kind": x.choice("kind", ["user", "service"])}
    if n or x.flip("has_scopes"):
        data["scopes"] = scopes
    auth, calls = hub_auth(x, 200, data, enforce, service)
    r, exc = outcome(auth.authenticate(mkreq(x, "jupyterhub tok")))
    x.observe("accepted", r is not None)
    ok = x.any(not enforce, *[x.any(s == "access:services", s == "access:services!service=" + service) for s in scopes])
    x.check(x.iff(r is not None, ok), "accepted exactly with an access scope for this service when scopes are enforced")
    if r is None:
        x.check(exc.status == 401, "a token without scope is refused with 401")
    x.reach("decided")


@unit("hub_identity", params=[{"k1": a, "k2": b} for a, b in (("user", "user"), ("user", "service"), ("service", "service"))], reach=["compared"])
def hub_identity(x, k1, k2):
    users = []
    ids = []
    for i, kind in enumerate((k1, k2)):
        prefix = x.choice("prefix%d" % i, ["", "user:", "service:", "service", ":"])
        name = prefix + x.str("name%d" % i, 2, 1, alphabet="ab:")
        adm = x.choice("admin%d" % i, [False, True, None])
        data = {"name": name, "kind": kind}
        if adm is not None:
            data["admin"] = adm
        if kind == "user":
            data["groups"] = ["g1"]
        auth, calls = hub_auth(x, 200, data, False)
        r, exc = outcome(auth.authenticate(mkreq(x, "jupyterhub tok")))
        x.check(r is not None, "the hub's answer is accepted")
        x.check(r.admin is bool(adm) and r.groups == ({"g1"} if kind == "user" else set()), "groups and admin state are the hub's")
        if kind == "user":
            plain = x.no(x.any(*[c == ":" for c in name]))
            x.check(x.implies(plain, r.name == name), "a plain user name is kept")
        users.append(r.name)
        ids.append(name)
    x.observe("names", users)
    same = x.all(k1 == k2, ids[0] == ids[1])
    x.check(x.iff(users[0] == users[1], same), "different hub identities are different users")
    x.reach("compared")
