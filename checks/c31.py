"""C31: the proxy routes a path to its longest registered prefix."""
from golib import Router, preload
from symx.env import unit

TECHNIQUE = "symbolic execution of the real Go router (its SSA form, printed from the current source) over histories of additions and removals with symbolic paths; z3"
LEVEL_NOTE = "Every sequence of 3 additions and removals (4 for two orders; thorough: 4 and 5 for all) of routes with up to 3 segments (2 from the fourth operation on), each segment symbolic, with and without slashes at either end, followed by a request of up to 3 segments; and every route and request text of slashes and letters up to 5 characters (thorough: two routes and a removal)."
BOUNDS = "5 operations; 3 segments per path; 3 different segments; texts of up to 5 characters"
OUTSIDE = "segments of more than one character in histories (texts cover them); characters outside ASCII"
ASSUMPTIONS = ["a slash at either end of a route or a request does not count as a segment; the remaining path may or may not keep its opening slash, since the proxy joins it with exactly one"]


def normal(x, p):
    """the segments of a route or request path: one slash at either end does not count"""
    if len(p) and x.conc(p[:1] == "/"):
        p = p[1:]
    if len(p) and x.conc(p[len(p) - 1:] == "/"):
        p = p[:len(p) - 1]
    if len(p) == 0:
        return []
    out, cur = [], 0
    for i in range(len(p)):
        if x.conc(p[i:i + 1] == "/"):
            out.append(p[cur:i])
            cur = i + 1
    return out + [p[cur:]]


def same(x, a, b):
    return len(a) == len(b) and x.all(*[p == q for p, q in zip(a, b)])


def prefix(x, a, b):
    return len(a) <= len(b) and x.all(*[p == q for p, q in zip(a, b)])


def strip(x, p):
    return p[1:] if len(p) and x.conc(p[:1] == "/") else p


class Table:
    """what the router was told, in order: (segments, target), or (segments, None) for a removal"""
    def __init__(self, x):
        self.x, self.log = x, []

    def put(self, segs, i):
        self.log.append((segs, i))

    def delete(self, segs):
        self.log.append((segs, None))

    def routes(self):
        x = self.x
        for k, (segs, i) in enumerate(self.log):
            if i is not None:
                yield segs, i, x.no(x.any(*[same(x, segs, s) for s, _ in self.log[k + 1:]]))


def judge(x, r, t, path):
    """one request against the reference"""
    segs = normal(x, path)
    target, rest = r.match(path)
    has = r.has_match(path)
    x.observe("match", [target, has])
    cand = [(s, i, x.all(live, prefix(x, s, segs))) for s, i, live in t.routes()]
    none = x.no(x.any(*[c for _, _, c in cand]))
    x.check(x.iff(has, x.no(none)), "the existence test agrees with the routes", (path, has))
    if target is None:
        x.check(none, "a request that a route covers is matched", path)
        x.check(len(rest) == 0, "no path is left without a match", path)
        x.reach("no match")
        return
    s, _, c = [k for k in cand if k[1] == target][0]
    x.check(c, "the matched route is registered and a whole-segment prefix of the request", (path, target))
    for s2, i2, c2 in cand:
        if len(s2) > len(s):
            x.check(x.no(c2), "no longer route covers the request", (path, target, i2))
    x.reach("match")
    # what follows the route's segments, one opening slash aside
    left = strip(x, path)
    left = left[sum(len(k) for k in s) + max(0, len(s) - 1):]
    if len(s):
        left = strip(x, left)
    x.check(strip(x, rest) == strip(x, left), "the remaining path is what follows the route", (path, target, rest))


SLASHES = [("/", ""), ("", ""), ("/", "/"), ("", "/")]


def build(x, name, segs, lead, trail):
    if not segs:
        return lead if lead else trail
    out = lead
    for k, s in enumerate(segs):
        out = out + ("/" if k else "") + s
    return out + trail


SHORT = ("PPP", "PPD", "PDP")
LONG = ("PPPD", "PPDP", "PPDD", "PPPDD", "PPDPD")


@unit("histories of whole segments", params=[dict(ops=o, deepest=d) for o in SHORT for d in (3, 2, 1, 0)] + [dict(ops=o, deepest=d) for o, d in (("PPPD", 1), ("PPDD", 1), ("PPDD", 2))],
      thorough_params=[dict(ops=o, deepest=d) for o in LONG[::-1] + SHORT for d in (3, 2, 1, 0)], reach=["match"])
def histories(x, ops, deepest):
    """every sequence of additions and removals of routes with up to 3 segments, with and without slashes at the ends"""
    r, t = Router(x), Table(x)
    n = 0
    for k, op in enumerate(ops):
        d = deepest if k == 0 else x.choice("depth%d" % k, [0, 1, 2, 3] if len(ops) < 4 else [0, 1, 2])
        segs = [x.str("s%d.%d" % (k, j), 1, 1, "abc") for j in range(d)]
        lead, trail = SLASHES[(k + d) % 4]
        path = build(x, "p%d" % k, segs, lead, trail)
        if op == "P":
            r.put(path, n)
            t.put(segs, n)
            n += 1
        else:
            r.delete(path)
            t.delete(segs)
    d = x.choice("depth", [0, 1, 2, 3])
    segs = [x.str("q.%d" % j, 1, 1, "abc") for j in range(d)]
    judge(x, r, t, build(x, "q", segs, "/", ""))


@unit("any text", params=[dict(a=a, b=b) for a in (0, 1, 2, 3, 5) for b in (0, 1, 2, 3, 5)], thorough_params=[dict(a=a, b=b) for a in range(0, 7) for b in range(0, 7)], reach=[])
def texts(x, a, b):
    """routes and requests that are any text of slashes and letters"""
    r, t = Router(x), Table(x)
    p = x.str("route", a, a, "/ab")
    r.put(p, 0)
    t.put(normal(x, p), 0)
    judge(x, r, t, x.str("request", b, b, "/ab"))


@unit("two texts", params=[dict(a=2, b=3)], thorough_params=[dict(a=a, b=b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)], reach=[])
def two_texts(x, a, b):
    """two routes that are any text, one of them removed under any text"""
    r, t = Router(x), Table(x)
    for k, n in ((0, a), (1, b)):
        p = x.str("route%d" % k, n, n, "/ab")
        r.put(p, k)
        t.put(normal(x, p), k)
    p = x.str("removed", a, a, "/ab")
    r.delete(p)
    t.delete(normal(x, p))
    judge(x, r, t, x.str("request", 3, 3, "/ab"))
