"""Drives the REST handlers of dask_gateway_server.routes through the route table."""
import json

from aiohttp import web

from symx.env import Stub, sync


class Resp(web.Response):
    """stands for web.json_response (symbolic mode): keeps the value"""
    data = None


def fake_json_response(x):
    def json_response(data=None, *, status=200, reason=None, headers=None, **kw):
        r = Resp(status=status, headers=headers)
        r.data = x.jsonable(data)
        return r
    return json_response


def body_of(x, resp):
    """the JSON value of a response, or None when it has no JSON body"""
    if isinstance(resp, Resp):
        return resp.data
    b = resp.body
    if not b:
        return None
    return json.loads(b)


class Headers(dict):
    def get(self, k, d=None):
        for q in list(self):
            if q.lower() == k.lower():
                return dict.__getitem__(self, q)
        return d

    def __getitem__(self, k):
        v = self.get(k, None)
        if v is None:
            raise KeyError(k)
        return v

    def __contains__(self, k):
        return self.get(k, None) is not None


class Request(dict):
    """The parts of aiohttp.web.Request which handlers and authenticators use."""
    def __init__(self, x, method, path, app, match_info=None, headers=None, query=None, cookies=None, msg=None):
        super().__init__()
        self.x, self.method, self.path, self.app = x, method, path, app
        self.match_info = dict(match_info or {})
        self.headers = Headers(headers or {})
        self.query = dict(query or {})
        self.cookies = dict(cookies or {})
        self.msg = msg
        self.path_qs = path
        self.remote = "127.0.0.1"
        self.can_read_body = self.body_exists = msg is not None

    async def json(self, *a, **k):
        return self.msg

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.x.missing("request.%s" % k)


class Log:
    """accepts any logging call"""
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class TrustAuth:
    """an authenticator that has already decided who the user is"""
    def __init__(self, user, fail=None):
        self.user, self.fail, self.calls = user, fail, 0

    async def authenticate_and_handle(self, request, handler):
        self.calls += 1
        if self.fail is not None:
            raise self.fail
        request["user"] = self.user
        return await handler(request)


def handler_for(x, method, path):
    import dask_gateway_server.routes as routes
    x.model(web.json_response, fake_json_response(x))
    for r in routes.default_routes:
        if r.method == method and r.path == path:
            return r.handler
    x.missing("route %s %s" % (method, path))


def request(x, method, path, app, **kw):
    """-> (response or the HTTPException that aiohttp would turn into one)"""
    h = handler_for(x, method, path)
    req = Request(x, method, path, app, **kw)
    return sync(h(req)), req
