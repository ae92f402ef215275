"""C20: user-supplied environment cannot override what the gateway sets."""
import asyncio
import json
import os

from dblib import make_backend_of
from oslib import FakeOS
from symx.env import Patch, Stub, set_traits, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real launch paths of the local, Slurm, PBS and Kubernetes backends (Python source) with symbolic variable names and values; z3 over bit vectors"
LEVEL_NOTE = "For every backend, for schedulers and workers: any two supplied variables, whose names are any text of up to 3 characters or one of the gateway's own names with any last four characters, with arbitrary short values."
BOUNDS = "two supplied variables; names of up to 3 characters, or a gateway variable's name with other last four characters (characters A-Z, a-z, digits, underscore); values up to 3 characters"
OUTSIDE = "extra container configuration an administrator merges into pods; what the batch system itself does with the exported names; the YARN backend (its library is not installed)"
ASSUMPTIONS = ["among several entries of one name in a container the last one counts, as in Kubernetes"]

TLS = "DASK_DISTRIBUTED__COMM__TLS__"
SHARED = ["DASK_GATEWAY_API_URL", "DASK_GATEWAY_API_TOKEN", "DASK_GATEWAY_CLUSTER_NAME", "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION", TLS + "CA_FILE"]
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
CRT, KEY = "dask.crt", "dask.pem"


def supplied(x, n):
    """-> environment dict, list of (name, value)"""
    one = n[:-4] + x.str("name", 4, 4, alphabet=ALPHA) if n else x.str("name", 3, 1, alphabet=ALPHA)
    two = "FOO" if n else x.choice("other", ["PATH", "USER", "dask_gateway_api_url", "DASK_GATEWAY_API_TOKEN", "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION"])
    pairs = [(two, x.str("value2", 1, 1)), (one, x.str("value", 2, 2 if n else 0))]
    x.assume(one != two)
    return x.dict(pairs), pairs


def judge(x, env, pairs, own, also=()):
    """env: what the process gets"""
    for k, v in own.items():
        x.check(x.contains(env, k) and bool(x.eq(x.get(env, k), v)), "the gateway's own value of %s is kept" % k)
    for k, v in pairs:
        if x.any(*[k == o for o in list(own) + list(also)]):
            x.reach("own")
            continue
        x.check(x.contains(env, k) and bool(x.eq(x.get(env, k), v)), "other supplied variables are passed through unchanged")
        x.reach("passed")


def own_values(worker, cert, key):
    who = "WORKER" if worker else "SCHEDULER"
    return {"DASK_GATEWAY_API_URL": "http://gw/api", "DASK_GATEWAY_API_TOKEN": "tok", "DASK_GATEWAY_CLUSTER_NAME": "c1",
            "DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION": "True", TLS + "CA_FILE": cert, TLS + who + "__CERT": cert, TLS + who + "__KEY": key}


PARAMS = [{"worker": w, "n": n} for w in (False, True) for n in [""] + SHARED + [TLS + ("WORKER" if w else "SCHEDULER") + k for k in ("__KEY", "__CERT")]]


async def launch(b, worker, cl, wk):
    """the states the backend reports"""
    out = []
    async for s in (b.do_start_worker(wk) if worker else b.do_start_cluster(cl)):
        out.append(s)
        (wk if worker else cl).state = s
    return out


def cluster(x, conf, state):
    from dask_gateway_server.utils import FrozenAttrDict
    cl = Stub(x, "cluster", name="c1", username="alice", token="tok", config=FrozenAttrDict(conf), state=state, tls_cert=b"CERT", tls_key=b"KEY", scheduler_address="tls://s", dashboard_address="", api_address="")
    return cl, Stub(x, "worker", name="w1", cluster=cl, state={})


@unit("local", params=[dict(p, unsafe=u) for p in PARAMS for u in (False, True) if not u or not p["n"]], reach=["own", "passed"])
def local(x, worker, n, unsafe):
    import dask_gateway_server.backends.local as m
    env, pairs = supplied(x, n)
    got = []
    with Patch() as p:
        fs = FakeOS(x, users={"alice": (1000, 1001, "/v/home/alice", [])}).install(p)
        getattr(m.getpwnam, "cache_clear", lambda: None)()
        fs.makedirs("/v/clusters", 0o755)
        p.set(os, "environ", {"PATH": "/gateway/bin", "LANG": "C", "HOME": "/root", "FOO": "gateway's", "DASK_GATEWAY_API_URL": "wrong"})
        fs.makedirs("/v/w/logs")

        async def spawn(*cmd, **kw):
            got.append(kw)
            return Stub(x, "process", pid=77)
        p.set(asyncio, "create_subprocess_exec", spawn)
        conf = m.LocalClusterConfig().to_dict()
        conf["environment"] = env
        cl, wk = cluster(x, conf, {"workdir": "/v/w"} if worker else {})
        b = make_backend_of(x, m.UnsafeLocalBackend if unsafe else m.LocalBackend, clusters_directory="/v/clusters", api_url="http://gw/api")
        out = run_coro(x, lambda: launch(b, worker, cl, wk))
        x.check(len(got) == 1 and out[-1].get("pid") == 77, "one process is started")
        wd = "/v/w" if worker else out[-1]["workdir"]
        own = own_values(worker, wd + "/.certs/" + CRT, wd + "/.certs/" + KEY)
        own.update(PATH="/gateway/bin", LANG="C", USER="alice")
        judge(x, got[0]["env"], pairs, own)


@unit("batch", params=[dict(p, system=s) for p in PARAMS for s in ("slurm", "pbs", "pbs staged")], reach=["own", "passed"])
def batch(x, worker, n, system):
    if system == "slurm":
        from dask_gateway_server.backends.jobqueue.slurm import SlurmBackend as B, SlurmClusterConfig as C
    else:
        from dask_gateway_server.backends.jobqueue.pbs import PBSBackend as B, PBSClusterConfig as C
    env, pairs = supplied(x, n)
    got = []
    with Patch() as p:
        FakeOS(x, users={"alice": (1000, 1001, "/v/home/alice", [])}).install(p)

        async def spawn(*cmd, **kw):
            async def communicate(stdin=None):
                got.append(x.unjson(stdin.decode("utf8")))
                return json.dumps({"ok": True, "returncode": 0, "stdout": "12\n", "stderr": ""}).encode("utf8"), b""
            return Stub(x, "process", pid=77, returncode=0, communicate=communicate)
        p.set(asyncio, "create_subprocess_exec", spawn)
        conf = C().to_dict()
        conf["environment"] = env
        if system == "pbs":
            conf["use_stagein"] = False
        conf["staging_directory"] = "/v/staging/{username}"
        cl, wk = cluster(x, conf, {})
        b = make_backend_of(x, B, submit_command="sub", cancel_command="del", status_command="stat", gateway_hostname="gw", dask_gateway_jobqueue_launcher="launch", api_url="http://gw/api")
        run_coro(x, lambda: launch(b, worker, cl, wk))
        x.check(len(got) == 1, "one job is submitted")
        base = "" if system == "pbs staged" else "/v/staging/alice/c1/"
        judge(x, got[0]["env"], pairs, own_values(worker, base + CRT, base + KEY))
        if system == "slurm":
            names = [x.after(c, "--export=") for c in got[0]["cmd"] if c.startswith("--export=")]
        else:
            names = [got[0]["cmd"][i + 1] for i, c in enumerate(got[0]["cmd"]) if type(c) is str and c == "-v"]
        x.check(len(names) == 1, "the job's command names the variables to export")
        exported = names[0].split(",")
        for k in list(own_values(worker, "", "")) + [k for k, v in pairs]:
            x.check(x.any(*[e == k for e in exported]), "every variable is exported to the job")


@unit("kubernetes", params=[p for p in PARAMS if "ENCRYPTION" not in p["n"]], reach=["own", "passed"])
def kubernetes(x, worker, n):
    import dask_gateway_server.backends.kubernetes.controller as m
    from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig
    from dask_gateway_server.utils import FrozenAttrDict
    env, pairs = supplied(x, n)
    conf = KubeClusterConfig().to_dict()
    conf["environment"] = env
    c = m.KubeController()
    set_traits(c, api_url="http://gw/api", gateway_instance="gw", common_labels={}, common_annotations={})
    pod = c.make_pod("ns", "c1", FrozenAttrDict(conf), is_worker=worker)
    ctr = pod["spec"]["containers"]
    x.check(len(ctr) == 1, "a pod has one container")
    got = {}
    for e in ctr[0]["env"]:
        got = x.dict([(k, v) for k, v in got.items() if not bool(x.eq(k, e["name"]))] + [(e["name"], e["value"] if "value" in e else e.get("valueFrom"))])
    d = "/etc/dask-credentials/"
    own = own_values(worker, d + CRT, d + KEY)
    del own["DASK_DISTRIBUTED__COMM__REQUIRE_ENCRYPTION"]
    own.update(DASK_GATEWAY_API_TOKEN=d + "api-token", DASK_GATEWAY_CLUSTER_NAME="ns.c1")
    if worker:
        own["DASK_GATEWAY_WORKER_NAME"] = {"fieldRef": {"fieldPath": "metadata.name"}}
    mounts = [v["mountPath"] for v in ctr[0]["volumeMounts"] if v["name"] == "dask-credentials"]
    x.check(mounts == [d] and {"name": "dask-credentials", "secret": {"secretName": c.make_secret_name("c1")}} in pod["spec"]["volumes"], "the cluster's credentials are mounted where the variables say")
    judge(x, got, pairs, own, [TLS + "WORKER__CERT", TLS + "WORKER__KEY", TLS + "SCHEDULER__CERT", TLS + "SCHEDULER__KEY"])
