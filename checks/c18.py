"""C18: cluster options accept exactly the values their declaration allows."""
import json

from dblib import Database, cleanup, make_backend
from symx.env import Patch, Stub, sync, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real option fields of server and client and of the cluster start (Python source); z3 over integers, reals and IEEE doubles"
LEVEL_NOTE = "Every value of every JSON kind (all doubles including NaN and infinities, all integers, strings up to 3 characters) against every declaration of each field kind with arbitrary bounds and default; declarations with several fields, unset options, mapped choices and targets; and the effect of a refused request on a real backend."
BOUNDS = "strings up to 3 characters, selections of 2 choices with keys up to 2 characters, mappings of one level; unbounded integers; all doubles; one to five fields"
OUTSIDE = "handlers and fields written by an administrator; the notebook widgets"
ASSUMPTIONS = ["booleans are integers, as in Python", "JSON carries every value the client accepts unchanged"]
replay_cleanup = cleanup
KINDS = ["int", "bool", "float", "str", "null", "list", "dict"]


def value(x, kind, name="v", fp=True):
    if kind == "int":
        return x.int(name)
    if kind == "bool":
        return x.flip(name)
    if kind == "float":
        return x.fp(name) if fp else x.real(name)
    if kind == "str":
        return x.str(name, 3)
    if kind == "null":
        return None
    if kind == "list":
        return [1]
    return {"k": x.int(name)}


def parse(opts, request):
    """-> (accepted, values)"""
    try:
        return True, opts.parse_options(request)
    except (TypeError, ValueError, OverflowError):
        return False, None


def client_set(c, name, v, attr):
    try:
        if attr:
            setattr(c, name, v)
        else:
            c[name] = v
        return True
    except (TypeError, ValueError, OverflowError):
        return False


def same(x, a, b):
    if x.conc(a != a) is True and x.conc(b != b) is True:
        return True
    return x.eq(a, b)


def both(x, field, v, want, result=None):
    """the server and the client for one declared field `f` and one value"""
    import dask_gateway.options as client
    import dask_gateway_server.options as server
    opts = server.Options(field)
    ok, out = parse(opts, {"f": v})
    if want:
        x.check(ok, "a value the declaration allows is accepted")
        x.reach("accepted")
    else:
        x.check(not ok, "a value the declaration does not allow is refused")
        x.reach("refused")
    if ok:
        x.check(same(x, out["f"], v if result is None else result), "the accepted value is the one requested")
    c = client.Options._from_spec(opts.get_specification())
    if client_set(c, "f", v, x.flip("attr")):
        x.check(want, "what the client accepts the server accepts")
        sent = dict(c)
        x.check(list(sent) == ["f"] and same(x, sent["f"], v if result is None else result), "the client sends the value that was set")


def bounds(x, mk, default):
    """arbitrary declared bounds around the default -> (min, max)"""
    lo = mk("min") if x.flip("has_min") else None
    hi = mk("max") if x.flip("has_max") else None
    if lo is not None:
        x.assume(lo <= default)
    if hi is not None:
        x.assume(default <= hi)
    return lo, hi


def within(x, v, lo, hi):
    """decides: inside the declared bounds"""
    return bool((lo is None or v >= lo) and (hi is None or v <= hi))


@unit("integer", params=[{"kind": k} for k in KINDS], reach=["refused"])
def integer(x, kind):
    import dask_gateway_server.options as server
    d = x.int("default")
    lo, hi = bounds(x, x.int, d)
    v = value(x, kind)
    want = kind in ("int", "bool") and within(x, v, lo, hi)
    both(x, server.Integer("f", default=d, min=lo, max=hi), v, want)


@unit("float", params=[{"kind": k} for k in KINDS], reach=["refused"])
def float_(x, kind):
    import dask_gateway_server.options as server
    if kind in ("int", "bool"):
        mk = x.real
    else:
        def mk(n):
            v = x.fp(n)
            x.assume(v == v)
            return v
    d = mk("default")
    lo, hi = bounds(x, mk, d)
    v = value(x, kind)
    num = kind in ("int", "bool", "float")
    want = num and within(x, v, lo, hi)
    both(x, server.Float("f", default=d, min=lo, max=hi), v, want, (v + 0.0 if kind == "int" else float(v)) if kind in ("int", "bool") else None)


@unit("float_int_bounds", reach=["refused", "accepted"])
def float_int_bounds(x):
    """bounds and default declared as integers"""
    import dask_gateway_server.options as server
    d = x.int("default")
    lo, hi = bounds(x, x.int, d)
    v = x.real("v")
    both(x, server.Float("f", default=d, min=lo, max=hi), v, within(x, v, lo, hi))


@unit("plain", params=[{"field": f, "kind": k} for f in ("String", "Bool", "Mapping") for k in KINDS])
def plain(x, field, kind):
    import dask_gateway_server.options as server
    v = value(x, kind)
    want = kind == {"String": "str", "Bool": "bool", "Mapping": "dict"}[field]
    both(x, getattr(server, field)("f"), v, want)


@unit("select", params=[{"kind": k} for k in KINDS], reach=["refused"])
def select(x, kind):
    import dask_gateway_server.options as server
    v = value(x, kind)
    keys = x.choice("keys", [["ab", "c"], ["", "A"], ["a", "a"]])
    to = x.choice("values", [[0, 1], [keys[1], keys[0]], [keys[1], "x"]])
    options = [(k, to[i]) if x.flip("mapped%d" % i) else k for i, k in enumerate(keys)]
    want = kind == "str" and bool(x.any(v == keys[0], v == keys[1]))
    both(x, server.Select("f", options), v, want)
    ok, out = parse(server.Options(server.Select("f", options)), {"f": v})
    if ok:
        got = server.Options(server.Select("f", options)).transform_options(out)
        for i in (1, 0) if keys[0] != keys[1] else (1,):
            if v == keys[i]:
                x.check(got["f"] == (to[i] if isinstance(options[i], tuple) else keys[i]), "a choice stands for its declared value")


NAMES = ["f", "g", "F", "f ", "target", "", "field"]


@unit("names", reach=["accepted", "refused"])
def names(x):
    """undeclared names are refused, also beside declared ones; what is no mapping is refused"""
    import dask_gateway.options as client
    import dask_gateway_server.options as server
    opts = server.Options(server.Integer("f", target="target", label="field"), server.String("g"))
    req = {}
    for i in range(2):
        n = x.choice("name%d" % i, NAMES + [None])
        if n is not None:
            req[n] = x.int("v%d" % i) if n != "g" else x.str("s%d" % i, 2)
    if x.flip("shape"):
        req = x.choice("request", [None, [], ["f"], "f", 1, [["f", 1]]])
    want = isinstance(req, dict) and all(n in ("f", "g") for n in req)
    ok, out = parse(opts, req)
    x.check(ok == want, "exactly the declared names are accepted")
    if ok:
        x.check(sorted(out) == ["f", "g"], "every declared option has a value")
        x.check(x.eq(out["f"], req.get("f", 0)) and x.eq(out["g"], req.get("g", "")), "unset options take their defaults")
        x.reach("accepted")
    else:
        x.reach("refused")
    if isinstance(req, dict):
        c = client.Options._from_spec(opts.get_specification())
        good = True
        for n, v in req.items():
            try:
                c[n] = v
            except KeyError:
                good = False
        x.check(good == want, "the client refuses undeclared names too")


@unit("handler", params=[{"args": a} for a in (1, 2)], reach=["accepted", "refused"])
def handler(x, args):
    """what the administrator's handler is given, what reaches the configuration, and what a refused request leaves behind"""
    import dask_gateway_server.options as server
    from dask_gateway_server import models
    from dask_gateway_server.backends.base import ClusterConfig, PublicException
    low = x.int("min")
    da = x.int("da")
    x.assume(da >= low)
    ds = x.str("ds", 2, 1)
    marker = Stub(x, "mapped value")
    seen = []

    def record(options, user=None):
        seen.append((dict(options, m=dict(options["m"], **({"k": list(options["m"]["k"])} if "k" in options["m"] else {}))), user))
        options["m"]["dirt"] = 1       # must not reach the declaration
        if "k" in options["m"]:
            options["m"]["k"].append(2)
        return {"worker_cmd": "w"}
    h = (lambda options: record(options)) if args == 1 else (lambda options, user: record(options, user))
    opts = server.Options(server.Integer("a", default=da, min=low, target="worker_a"), server.Bool("b", default=True), server.String("s", default=ds, target="tt"),
                          server.Select("c", [("one", marker), "two"], default=x.choice("dc", [None, "two"])), server.Mapping("m", default={"k": [1]}), handler=h)
    dc = opts.parse_options({})["c"]
    made = []

    class Config(ClusterConfig):
        def __init__(self, parent=None, **kw):
            made.append(kw)
            ClusterConfig.__init__(self, parent=parent)

        def to_dict(self):
            return {"worker_cmd": ["w"]}
    req = {}
    bad = False
    if x.flip("set_a"):
        req["a"] = x.int("a")
        bad = not bool(req["a"] >= low)
    if x.flip("set_b"):
        req["b"] = x.choice("b", [False, 1])
        bad = bad or type(req["b"]) is int
    both_set = x.flip("set_s_c")
    if both_set:
        req["s"] = x.str("s", 2, 2)
        req["c"] = x.choice("c", ["one", "two", "three"])
        bad = bad or req["c"] == "three"
    if x.flip("set_m"):
        req["m"] = {"x": x.int("m")}
    asked_m = dict(req.get("m", {"k": [1]}))

    async def main():
        with Database(x) as db:
            b = make_backend(x, db)
            b._trait_values["cluster_config_class"] = Config
            b._trait_values["cluster_options"] = opts
            user = models.User("alice")
            try:
                name = await b.start_cluster(user, req)
            except PublicException:
                name = None
            rows = db.rows("clusters")
            if bad:
                x.check(name is None, "a request with a value that is not allowed is refused")
                x.check(not rows and not b.queue.items and not made and not seen, "a refused request starts nothing")
                x.reach("refused")
                return
            x.check(name is not None and len(rows) == 1 and len(b.queue.items) == 1, "an allowed request starts one cluster")
            x.reach("accepted")
            want = {"worker_a": req.get("a", da), "b": req.get("b", True), "tt": req.get("s", ds), "c": {"one": marker, "two": "two"}[req.get("c", dc)], "m": asked_m}
            got, who = seen[0]
            x.check(len(seen) == 1 and sorted(got) == sorted(want), "the handler is given every option under its target name, once")
            for k in want:
                if k == "m":
                    w = want["m"]
                    x.check(sorted(got["m"]) == sorted(w) and all(x.eq(got["m"][j], w[j]) for j in w), "the handler is given the accepted or default value")
                elif k == "c":
                    x.check(got["c"] is want["c"] or got["c"] == want["c"], "the handler is given the value a choice stands for")
                else:
                    x.check(x.eq(got[k], want[k]), "the handler is given the accepted or default value")
            x.check(args == 1 or who is user, "the handler is given the user")
            x.check(len(made) == 1 and made[0] == {"worker_cmd": "w"}, "the handler's settings reach the configuration")
            x.check(opts.parse_options({})["m"] == {"k": [1]}, "the declared default does not change")
    run_coro(x, main)


@unit("no_handler", reach=["done"])
def no_handler(x):
    """without a handler the accepted values themselves are the settings; a function may choose the declaration per user"""
    import dask_gateway_server.options as server
    from dask_gateway_server import models
    from dask_gateway_server.backends.base import Backend, ClusterConfig
    made = []

    class Config(ClusterConfig):
        def __init__(self, parent=None, **kw):
            made.append(kw)
            ClusterConfig.__init__(self, parent=parent)
    lo, v = x.int("min"), x.int("v")
    x.assume(x.all(v >= lo, lo <= 5))
    opts = server.Options(server.Integer("n", default=5, min=lo, target="t"), server.Select("s", [("one", 1), ("two", 2)]))
    asked = []

    async def later(user):
        asked.append(user)
        return opts

    def now(user):
        asked.append(user)
        return opts
    b = Backend()
    how = x.choice("declared", ["fixed", "function", "coroutine"])
    b._trait_values["cluster_config_class"] = Config
    b._trait_values["cluster_options"] = {"fixed": opts, "function": now, "coroutine": later}[how]
    user = models.User("alice")
    got, _ = sync(b.process_cluster_options(user, {"n": v, "s": "two"}))
    x.check(x.eq(got["n"], v) and got["s"] == "two" and len(got) == 2, "the accepted options are recorded as requested")
    x.check(len(made) == 1 and x.eq(made[0]["t"], v) and made[0]["s"] == 2 and len(made[0]) == 2, "without a handler the values are the settings")
    x.check(how == "fixed" or asked == [user], "the declaration may depend on the user")
    x.reach("done")
