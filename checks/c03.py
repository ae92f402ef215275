"""C03: cached logins belong to the user who logged in and expire."""
from aiohttp import web

from restlib import Log, Request
from symx.env import Clock, Stub, Uuid, UuidSeq, set_traits, sync, unit

TECHNIQUE = "symbolic execution of the real cookie cache and authenticate_and_handle (Python source) over symbolic login histories and times; z3"
LEVEL_NOTE = ("All histories of 3 (thorough: 5) requests with arbitrary users, success or failure of full authentication, any cookie issued before or not, "
              "arbitrary non-decreasing times and an arbitrary maximum age.")
BOUNDS = "histories of up to 3 requests (thorough 5), each with no cookie, a cookie never issued, or any cookie issued earlier in the history; two users with arbitrary one-character names; any times (1/8 s grid) and any maximum age"
OUTSIDE = "guessing of cookies (uuid4 is taken to be fresh and unguessable); longer histories"
ASSUMPTIONS = ["uuid4 yields fresh values", "time.monotonic does not go backwards"]


class Jar:
    """stands for a response"""
    def __init__(self):
        self.headers, self.cookies, self.status = {}, [], 200

    def set_cookie(self, name, value, **kw):
        self.cookies.append((name, value))


@unit("history", params=[{"n": 3, "first": c} for c in ("ok", "fail")], thorough_params=[{"n": n, "first": "ok"} for n in (4,)], reach=["cached", "expired", "authenticated", "refused"])
def history(x, n, first):
    run(x, n, first)


def run(x, n, first):
    import dask_gateway_server.auth as a
    from dask_gateway_server.models import User
    Uuid.fn = UuidSeq()
    now = [x.time("t0", 0)]
    Clock.mono = lambda: now[0]
    Clock.wall = lambda: 5.0
    age = x.int("max_age", 0)
    names = [x.str("u0", 1, 1), x.str("u1", 1, 1)]
    state = {}

    class Auth(a.Authenticator):
        async def authenticate(self, request):
            state["auth"] += 1
            if state["who"] is None:
                raise web.HTTPUnauthorized(reason="no")
            u = User(names[state["who"]])
            return (u, "ctx") if state["ctx"] else u

        async def pre_response(self, request, response, context=None):
            state["pre"].append(context)
    auth = Auth()
    set_traits(auth, cache_max_age=age, cookie_name="ck")
    ledger = {}          # cookie -> (who, time of the last issue)
    log = []
    for k in range(n):
        if k:
            now[0] = now[0] + x.time("dt%d" % k, 0)
        issued = list(ledger)
        cookie = x.choice("cookie%d" % k, [None, "other"] + issued)
        who = x.choice("login%d" % k, [0, 1, None]) if k or first == "ok" else None
        state.update(auth=0, who=who, ctx=k % 2 == 1, pre=[])
        ran = []

        async def handler(request):
            ran.append(request["user"].name)
            return Jar()
        req = Request(x, "GET", "/", {}, cookies={} if cookie is None else {"ck": cookie})
        try:
            resp = sync(auth.authenticate_and_handle(req, handler))
        except web.HTTPUnauthorized:
            resp = None
        log.append((len(ran), state["auth"], resp is not None))
        if state["auth"] == 0:
            x.check(cookie in ledger, "only an issued cookie replaces authentication")
            u, t = ledger[cookie]
            x.check(now[0] - t <= age, "a cookie is honoured only up to the maximum age")
            x.check(len(ran) == 1 and ran[0] == names[u], "a cookie stands for the user it was issued to")
            x.reach("cached")
        else:
            x.check(state["auth"] == 1, "authentication runs once")
            if cookie in ledger:
                x.reach("expired")
            if who is None:
                x.check(resp is None and not ran, "without authentication the handler does not run")
                x.check(not state["pre"], "a refused request is not completed")
                x.reach("refused")
            else:
                x.check(resp is not None and len(ran) == 1 and ran[0] == names[who], "the handler runs as the authenticated user")
                x.check(state["pre"] == ["ctx" if state["ctx"] else None], "the authenticator completes the response")
                x.reach("authenticated")
        if resp is not None:
            for name, value in resp.cookies:
                x.check(name == "ck", "the configured cookie name is used")
                x.check(state["auth"] == 1, "a cookie is issued only after authentication")
                if value in ledger:
                    x.check(names[ledger[value][0]] == ran[0], "a cookie is never handed to a second user")
                ledger[value] = (who, now[0])
    x.observe("log", log)


@unit("deep", params=[{"n": 5, "first": "ok"}], tiers=("thorough",), time_limit=600)
def deep(x, n, first):
    run(x, n, first)
