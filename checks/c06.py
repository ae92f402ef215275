"""C06: the derived worker limit is exactly what the resource limits allow."""
from symx.env import Patch, sync, unit
from traitlib import traits_models

TECHNIQUE = "symbolic execution of the real ClusterConfig validators under the real traitlets loader; z3 over all resource sizes (nonlinear integer and real arithmetic)"
LEVEL_NOTE = ("All memory sizes, core counts and worker limits (unbounded), every combination of configuration file, user override and default for each setting; "
              "float core counts are taken as exact reals on a 1/8 grid.")
BOUNDS = "sizes are unbounded integers (core counts of Kubernetes clusters: multiples of 1/8, positive); one configuration level plus overrides"
OUTSIDE = "rounding of floats beyond the 1/8 grid; worker cores of zero (Kubernetes allows a request of zero); configuration subclasses of users"
ASSUMPTIONS = ["traitlets' own Integer/Float type tests accept symbolic numbers as they accept int/float"]


def build(x, cls, cfg, overrides):
    """-> (accepted, settings) through the entry point a cluster start uses"""
    from dask_gateway_server.backends.base import Backend, PublicException
    from dask_gateway_server.options import Options
    from dask_gateway_server import models
    from traitlets.config import Config
    c = Config()
    for k, v in cfg.items():
        c[cls.__name__][k] = v
    backend = Backend(config=c)
    backend._trait_values["cluster_config_class"] = cls
    backend._trait_values["cluster_options"] = Options(handler=lambda o: dict(overrides))
    try:
        _, config = sync(backend.process_cluster_options(models.User("alice"), {}))
        return True, config.to_dict()
    except PublicException:
        return False, None


DEFAULTS = {"worker_memory": 2 * 2**30, "scheduler_memory": 2 * 2**30, "worker_cores": 1, "scheduler_cores": 1,
            "cluster_max_memory": None, "cluster_max_cores": None, "cluster_max_workers": None}
LIMITS = ["cluster_max_workers", "cluster_max_memory", "cluster_max_cores"]
SIZES = [("worker", "worker_memory", "worker_cores"), ("scheduler", "scheduler_memory", "scheduler_cores")]


def value(x, name, src, kube):
    # traitlets treats a value equal to the default as no change: that case has its own unit
    if name == "cluster_max_cores":
        return x.time("%s.%s" % (src, name), 0)
    if kube and "cores" in name:
        v = x.time("%s.%s" % (src, name), 0.125)
        x.assume(v != 1)
        return v
    return x.int("%s.%s" % (src, name), 0 if name in LIMITS else 2 if "cores" in name else 1)


def verdict(x, final, ok, got):
    wm, sm, wc, sc = (final[k] for k in ("worker_memory", "scheduler_memory", "worker_cores", "scheduler_cores"))
    cw, cm, cc = (final[k] for k in LIMITS)
    fits0 = x.all(cm is None or sm <= cm, cc is None or sc <= cc)
    x.observe("accepted", ok)
    x.check(x.iff(fits0, ok), "a configuration is accepted if and only if the scheduler alone fits")
    if not ok:
        x.reach("rejected")
        return
    n = got["cluster_max_workers"]
    x.observe("limit", n)
    if cw is None and cm is None and cc is None:
        x.check(n is None, "without limits the number of workers is unlimited")
        x.reach("unlimited")
        return
    x.check(n is not None, "with a limit the number of workers is limited")
    x.check(n >= 0, "the limit is not negative")
    within, beyond = [], []
    if cw is not None:
        within.append(n <= cw)
        beyond.append(n + 1 > cw)
    if cm is not None:
        within.append(sm + n * wm <= cm)
        beyond.append(sm + (n + 1) * wm > cm)
    if cc is not None:
        within.append(sc + n * wc <= cc)
        beyond.append(sc + (n + 1) * wc > cc)
    x.check(x.all(*within), "the scheduler and that many workers stay within every limit")
    x.check(x.any(*beyond), "one more worker would exceed a limit")
    x.check(x.all(x.eq(got["worker_memory"], wm), x.eq(got["worker_cores"], wc), x.eq(got["scheduler_memory"], sm), x.eq(got["scheduler_cores"], sc)),
            "the sizes are those configured")
    x.reach("limited")


def run(x, kube, kinds, order):
    with Patch() as p:
        traits_models(x, p)
        if kube:
            from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig as cls
        else:
            from dask_gateway_server.backends.base import ClusterConfig as cls
        cfg, over, final = {}, {}, dict(DEFAULTS)
        for name, kind in kinds:
            if "c" in kind:
                cfg[name] = final[name] = value(x, name, "config", kube)
            if "1" in kind:
                cfg[name] = final[name] = 1
            if "n" in kind:
                cfg[name] = final[name] = None
            if "o" in kind:
                over[name] = final[name] = value(x, name, "user", kube)
            if "N" in kind:
                over[name] = final[name] = None
        if order:
            cfg, over = dict(reversed(cfg.items())), dict(reversed(over.items()))
        ok, got = build(x, cls, cfg, over)
        verdict(x, final, ok, got)


# where a setting comes from: "" default, c configuration, n configured as None, o user, N user None, and both
KINDS = ["", "c", "n", "o", "N", "co", "cN"]


@unit("limit", params=[{"cls": c, "workers": k} for c in ("base", "kube") for k in KINDS], reach=["limited"])
def limit(x, cls, workers):
    """the limits from any place, the sizes all from one place"""
    kinds = [("cluster_max_workers", workers)]
    kinds += [(n, x.choice(n, ["", "c", "o", "cN"] if cls == "base" else ["", "o", "co"])) for n in LIMITS[1:]]
    sizes = x.choice("sizes", ["c", "o"])
    kinds = [(n, sizes) for s in SIZES for n in s[1:]] + kinds
    run(x, cls == "kube", kinds, sizes == "o")


@unit("sizes", params=[{"cls": c, "mem": m} for c in ("base", "kube") for m in ("c", "o", "cN")], reach=["limited", "rejected"])
def sizes(x, cls, mem):
    """the sizes from any place, the limits all from one place"""
    kinds = [(n, "o" if n == "cluster_max_workers" else mem) for n in LIMITS]
    if mem == "cN":
        kinds[2] = ("cluster_max_cores", "c")
    for s in SIZES:
        src = x.choice(s[0], ["", "c", "o", "co", "c1"])
        for n in s[1:]:
            kinds.append((n, "1" if src == "c1" and "cores" in n else src.replace("1", "")))
    run(x, cls == "kube", kinds, False)


@unit("none", reach=["unlimited"])
def none(x):
    kinds = [(n, x.choice(n, ["", "n", "N", "cN"])) for n in LIMITS]
    run(x, x.flip("kube"), kinds, False)


@unit("ill_formed", params=[{"src": "config"}, {"src": "user"}], reach=["refused"])
def ill_formed(x, src):
    from dask_gateway_server.backends.base import ClusterConfig
    with Patch() as p:
        traits_models(x, p)
        name = x.choice("setting", LIMITS)
        other = x.choice("other", [None] + [n for n in LIMITS if n != name])
        kind = x.choice("bad", ["negative", "text", "list"] + (["fraction"] if name == "cluster_max_workers" else []))
        bad = {"negative": lambda: x.int("value", None, -1), "text": lambda: "many", "list": lambda: [1], "fraction": lambda: 2.5}[kind]()
        s = {name: bad, "scheduler_memory": 1, "worker_memory": 1}
        if other is not None:
            s[other] = 100
        ok, got = build(x, ClusterConfig, s if src == "config" else {}, s if src == "user" else {})
        x.check(not ok, "an ill-formed limit is refused")
        x.reach("refused")
