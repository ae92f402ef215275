"""C19: memory sizes keep their meaning through parsing and formatting."""
from symx.env import Patch, Stub, unit
from traitlib import traits_models

TECHNIQUE = "symbolic execution of the real size parser and batch-system formatters (Python source) over symbolic text and sizes; z3 over bit vectors, integers and reals"
LEVEL_NOTE = "Every text of up to 4 (thorough 6) characters over the characters sizes are made of, every size of up to 4 digits with up to 2 decimals and any unit, every integer and double; formatting of every size up to 1 PiB for both batch systems, schedulers and workers."
BOUNDS = "texts up to 4 (thorough 6) characters of the alphabet 0 1 9 . e - + _ n a blank K M G T k B; numbers of 1 to 4 digits and 0 to 2 decimals; any integer; sizes from 0 to 2^50 bytes for formatting"
OUTSIDE = "rounding of more than 15 significant digits"
ASSUMPTIONS = ["a number is what Python's float() reads", "products are compared as exact decimals (the sizes are below 2^53 times the resolution)"]
UNITS = {"K": 2**10, "M": 2**20, "G": 2**30, "T": 2**40}


def accept(x, v, low=None):
    """-> (accepted, bytes) of a configured size"""
    from traitlets import HasTraits
    from dask_gateway_server.traitlets import MemoryLimit
    with Patch() as p:
        traits_models(x, p)
        if low is None:
            class C(HasTraits):
                size = MemoryLimit()
        else:
            class C(HasTraits):
                size = MemoryLimit(0, min=0)
        c = C()
        c.set_trait("size", 7)
        try:
            c.size = v
        except Exception:
            return False, None
        return True, c.size


def trunc(x, v):
    return x.ite(v >= 0, v // 1, -((-v) // 1))


@unit("text", params=[{"n": n, "low": l} for n in (1, 2, 3, 4) for l in (None, 0)], thorough_params=[{"n": 5, "low": 0}, {"n": 6, "low": 0}], reach=["refused"], time_limit=800)
def text(x, n, low):
    s = x.str("size", n, n, alphabet="019.e-+_na KMGTkB")
    ok, got = accept(x, s, low)
    unit_ = None
    for u in UNITS:
        if s[n - 1] == u:
            unit_ = u
    num = x.number(s[:n - 1]) if unit_ is not None and n > 1 else None
    if num is not None and not x.symbolic:
        num = num if num == num and abs(num) != float("inf") else None
    elif num is not None and type(num) is float and (num != num or abs(num) == float("inf")):
        num = None
    if num is None:
        x.check(not ok, "what is no number with a unit is refused")
        x.reach("refused")
        return
    want = trunc(x, num * UNITS[unit_])
    if low is not None and want < low:
        x.check(not ok, "a size below the minimum is refused")
        x.reach("refused")
        return
    x.check(ok, "a number with a unit is accepted")
    x.reach("accepted")
    if ok:
        x.check(x.eq(got, want), "the size is the number times the unit")


@unit("decimal", params=[{"digits": d, "decimals": f} for d in (1, 2, 4) for f in (0, 1, 2)], reach=["accepted"])
def decimal(x, digits, decimals):
    w = x.str("whole", digits, digits, alphabet="0123456789")
    f = x.str("fraction", decimals, decimals, alphabet="0123456789") if decimals else ""
    u = x.choice("unit", list(UNITS)[:3] if decimals == 2 else list(UNITS))
    sp = x.choice("blank", ["", " "])
    v = 0
    for ch in w:
        v = v * 10 + x.digit(ch)
    for ch in f:
        v = v * 10 + x.digit(ch)
    ok, got = accept(x, w + ("." + f if decimals else "") + sp + u, x.choice("low", [None, 0]))
    x.check(ok, "a number with a unit is accepted")
    x.check(x.eq(got, v * UNITS[u] // 10 ** decimals), "the size is the number times the unit")
    x.reach("accepted")


@unit("number", params=[{"kind": k} for k in ("int", "real", "special", "other")], reach=["checked"])
def number(x, kind):
    low = x.choice("low", [None, 0])
    if kind == "int":
        v = x.int("v")
        want = v
    elif kind == "real":
        v = x.real("v", -10 ** 15, 10 ** 15)
        want = trunc(x, v)
    elif kind == "special":
        v, want = x.choice("v", [float("nan"), float("inf"), float("-inf")]), None
    else:
        v, want = x.choice("v", [None, [], [1], {}, ["1", "G"], "", "G", "12", "1.5"]), None
    ok, got = accept(x, v, low)
    if want is None or (low is not None and want < 0):
        x.check(not ok, "what is no size is refused")
    else:
        x.check(ok, "a number of bytes is accepted")
        x.check(x.eq(got, want), "a number of bytes is kept")
    x.reach("checked")


def submitted(x, system, worker, size):
    """the size in the command the batch system is given"""
    import pwd
    import dask_gateway_server.models as models
    if system == "slurm":
        from dask_gateway_server.backends.jobqueue.slurm import SlurmBackend as B, SlurmClusterConfig as C
    else:
        from dask_gateway_server.backends.jobqueue.pbs import PBSBackend as B, PBSClusterConfig as C
    from dask_gateway_server.utils import FrozenAttrDict
    with Patch() as p:
        p.set(pwd, "getpwnam", lambda n: Stub(x, "pw", pw_dir="/home/" + n))
        conf = C().to_dict()
        conf["worker_memory"] = size if worker else 777 * 2**30
        conf["scheduler_memory"] = 777 * 2**30 if worker else size
        b = B(gateway_hostname="gw", api_url="http://gw/api", submit_command="sub")
        cl = Stub(x, "cluster", name="c1", username="alice", token="t", config=FrozenAttrDict(conf), state={}, worker_limit=None, scheduler_address="s", dashboard_address="d", api_address="a")
        wk = Stub(x, "worker", name="w1", cluster=cl) if worker else None
        cmd, env, stdin = b.get_submit_cmd_env_stdin(cl, wk) if worker else b.get_submit_cmd_env_stdin(cl)
    if system == "slurm":
        found = [c for c in cmd if c.startswith("--mem=")]
        x.check(len(found) == 1, "the command has one memory request")
        return x.after(found[0], "--mem=")
    i = [k for k, c in enumerate(cmd) if type(c) is str and c == "-l"]
    x.check(len(i) == 1, "the command has one resource request")
    r = cmd[i[0] + 1]
    return x.after(r, "select=1:ncpus=1:mem=")


@unit("format", params=[{"system": s, "worker": w} for s in ("slurm", "pbs") for w in (False, True)], reach=["G", "M", "K"])
def format_(x, system, worker):
    n = x.int("bytes", 10 * 2**10, 2**50)
    t = submitted(x, system, worker, n)
    names = {"G": "G", "M": "M", "K": "K"} if system == "slurm" else {"GB": "G", "MB": "M", "kB": "K"}
    for suffix, u in names.items():
        if t.endswith(suffix):
            q = x.integer(t.removesuffix(suffix))
            x.check(q is not None, "the memory request is a whole number with a unit")
            x.check(q * UNITS[u] >= n, "the scheduler is never given less than configured")
            x.check(q * UNITS[u] < n + UNITS[u], "it is given less than one unit more")
            x.check(UNITS[u] * 9 < n, "the unit is at most a tenth of the size or so")
            x.reach(u)
            return
    x.check(False, "the memory request is a whole number with a unit")


@unit("format_small", reach=["B"])
def format_small(x):
    """PBS sizes below 10 KiB are exact"""
    n = x.int("bytes", 0, 10 * 2**10 - 1)
    t = submitted(x, "pbs", x.flip("worker"), n)
    x.check(t.endswith("B"), "small sizes are given in bytes")
    x.check(x.eq(x.integer(t.removesuffix("B")), n), "small sizes are exact")
    x.reach("B")
