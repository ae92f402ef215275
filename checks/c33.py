"""C33: proxied HTTP requests reach the matched target with the right path."""
from golib import Proxy, preload
from symx.env import unit

TECHNIQUE = "symbolic execution of the real Go proxy (its SSA form, printed from the current source) on symbolic request paths, queries, routes and target paths; z3"
LEVEL_NOTE = "Every request path of slashes and letters up to 5 characters (thorough: 7) against nested routes with and without a route for everything and five forms of target path; every target path of up to 3 (thorough 5) characters; every query of up to 3 characters with and without a query in the target, web-socket headers, methods and targets that do not answer; tables changed by events with symbolic routes."
BOUNDS = "4 routes; paths of up to 5 (thorough 7) characters; queries of up to 3 characters"
OUTSIDE = "percent-encoded paths (the proxy matches and forwards decoded paths); the HTTP connections themselves"
ASSUMPTIONS = ["net/http parses requests, and httputil.ReverseProxy forwards the request that its Director leaves, and handles upgrades, as documented (replays run the real one)"]


def starts(x, p, c="/"):
    return len(p) > 0 and x.conc(p[:1] == c)


def ends(x, p, c="/"):
    return len(p) > 0 and x.conc(p[len(p) - 1:] == c)


def joined(x, a, b):
    """two paths joined by exactly one slash; an empty segment between them may be left out"""
    a = a[:len(a) - 1] if ends(x, a) else a
    b = b[1:] if starts(x, b) else b
    return [a + "/" + b] + ([a + b] if starts(x, b) else [])


def covered(x, route, path):
    """(is the route a whole-segment prefix of the path?, what follows it); routes are given as /a/b"""
    if not starts(x, path):
        path = "/" + path
    if len(route) == 0:
        return True, path
    if len(path) < len(route) or not x.conc(path[:len(route)] == route):
        return False, None
    rest = path[len(route):]
    if len(rest) == 0 or starts(x, rest):
        return True, rest
    return False, None


def judge(x, p, routes, base, path, tq="", query="", headers=None, method="GET"):
    headers = headers or {}
    status, out = p.http(path, query, headers, method)
    x.observe("out", [status, out and out["host"], out and out["path"], out and out["query"]])
    best = None
    for r, h in routes:
        c, rest = covered(x, r, path)
        if c and (best is None or len(r) > len(best[0])):
            best = (r, h, rest)
    if best is None:
        x.check(out is None, "a request that no route covers is forwarded nowhere", path)
        x.check(status is not None and status >= 400, "a request that no route covers gets an error", status)
        x.reach("refused")
        return
    x.reach("forwarded")
    x.check(out is not None, "a request that a route covers is forwarded", path)
    x.check(out["host"] == best[1] and out["scheme"] == "http", "it goes to the target of the longest route", (path, out["host"]))
    x.check(x.any(*[out["path"] == j for j in joined(x, base, best[2])]), "its path is the target's and the remaining one joined by one slash", (path, out["path"], best))
    x.check(out["query"] == (tq + "&" + query if tq and len(query) else tq or query), "its query is kept", (out["query"], tq, query))
    x.check(out["method"] == method, "its method is kept")
    for k, v in headers.items():
        x.check(k in out["headers"] and len(out["headers"][k]) == 1 and out["headers"][k][0] == v, "its headers are kept", (k, out["headers"]))
    if p.fail_transport:
        x.check(status is not None and status >= 500, "a target that does not answer gives an error", status)
        x.reach("failed")


def nested(x, p, base, tq, slash):
    routes = [("/a", "t1:80"), ("/a/b", "t2:80"), ("/ab", "t3")] + ([("", "t0:80")] if slash else [])
    p.load([p.route("PATH", path=r or "/", target="http://%s%s%s" % (h, base, "?" + tq if tq else "")) for r, h in routes])
    return routes


@unit("any path", params=[dict(n=n, slash=s) for n in (5, 4, 3, 2, 1, 0) for s in (False, True)], thorough_params=[dict(n=n, slash=s) for n in (7, 6, 5, 4, 3, 2, 1, 0) for s in (False, True)], reach=[])
def paths(x, n, slash):
    """a request with any path to a proxy with nested routes whose targets have any of several paths"""
    p = Proxy(x)
    base = x.choice("target path", ["", "/", "/x", "/x/", "/x/y"])
    routes = nested(x, p, base, "", slash)
    judge(x, p, routes, base, x.str("path", n, n, "/ab"))


@unit("any target path", params=[dict(n=n) for n in (0, 1, 2, 3)], thorough_params=[dict(n=n) for n in (0, 1, 2, 3, 4, 5)], reach=["forwarded"])
def target_paths(x, n):
    """a route whose target has any path"""
    p = Proxy(x)
    base = x.str("target path", n, n, "/x.-")
    if n:
        base = "/" + base
    p.load([p.route("PATH", path="/a", target="http://t1:80" + base)])
    judge(x, p, [("/a", "t1:80")], base, x.choice("path", ["/a", "/a/", "/a/c", "/a/c/"]))


@unit("query and headers", reach=["forwarded", "failed", "refused"])
def extras(x):
    """any query, headers of web-socket upgrades, methods and targets that do not answer"""
    p = Proxy(x)
    tq = x.choice("target query", ["", "k=1"])
    routes = nested(x, p, "/x", tq, False)
    query = x.str("query", 3, 0)
    headers = {"X-Any": x.str("header", 2, 2, "abc"), "Upgrade": "websocket", "Connection": "Upgrade"}
    if x.flip("user agent"):
        headers["User-Agent"] = "me"
    p.fail_transport = x.flip("the target fails")
    judge(x, p, routes, "/x", x.choice("path", ["/a/b/c", "/c"]), tq, query, headers, x.choice("method", ["GET", "POST"]))


@unit("after changes", params=[dict(a=a, b=b) for a in (1, 2) for b in (0, 1, 2)], reach=["forwarded", "refused"])
def changed(x, a, b):
    """after routes were added, replaced and removed by events"""
    p = Proxy(x)
    p.load([p.route("PATH", path="/c", target="http://t1")])
    one, two = x.str("route", a, a, "abc"), x.str("other", b, b, "abc")
    p.events([("PUT", p.route("PATH", path="/" + one, target="http://t2"))])
    p.events([("PUT", p.route("PATH", path="/c/d", target="http://t3")), ("DELETE", p.route("PATH", path="/" + two))])
    table = []
    gone = "/" + two if b else ""
    for r, h in [("/" + one, "t2"), ("/c", "t1"), ("/c/d", "t3")]:
        if not x.conc(r == gone) and not any(x.conc(r == k) for k, _ in table):
            table.append((r, h))
    judge(x, p, table, "", x.choice("request", ["/c", "/c/d/e", "/a", "/ab/c", "/"]))
