"""C23: batch jobs are tracked by their real state and always cancelled."""
import asyncio

from dblib import make_backend_of
from oslib import FakeOS
from symx.env import Patch, Stub, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real batch backends (Python source) with symbolic job ids, launcher answers and status listings; z3 over bit vectors and integers"
LEVEL_NOTE = "Every launcher answer (failure, error, any return code, any short output) for starts and stops; every status listing of up to 3 lines with any ids of up to 2 digits (Slurm also array-style ids) and any state of up to 2 letters for up to 3 clusters or workers, in any order."
BOUNDS = "job ids of 1 to 2 digits, outputs up to 3 characters, 3 jobs, listings of 0 to 3 lines"
OUTSIDE = "states a batch system documents as neither running nor waiting nor final (suspended, exiting, requeued ...); the launcher itself is C24"
ASSUMPTIONS = ["squeue and qstat print the ids as submission printed them"]
ALIVE = {"slurm": ["R", "CG", "PD", "CF"], "pbs": ["R", "Q", "H"]}
UNSURE = {"slurm": ["S", "ST", "SI", "SO", "SE", "RQ", "RS", "RH", "RD", "RF", "RV", "PR"], "pbs": ["E", "S", "T", "W", "B", "M", "U", "X"]}


def make(x, system, **kw):
    if system == "slurm":
        from dask_gateway_server.backends.jobqueue.slurm import SlurmBackend as B, SlurmClusterConfig as C
    else:
        from dask_gateway_server.backends.jobqueue.pbs import PBSBackend as B, PBSClusterConfig as C
    from dask_gateway_server.utils import FrozenAttrDict
    conf = C().to_dict()
    conf["staging_directory"] = "{home}/stage/{username}"
    b = make_backend_of(x, B, submit_command="sub", cancel_command="del", status_command="stat", gateway_hostname="gw", dask_gateway_jobqueue_launcher="/opt/launch")
    user = kw.pop("user", "alice")
    cl = Stub(x, "cluster", name="c1", username=user, token="tok", config=FrozenAttrDict(conf), state={}, tls_cert=b"CERT", tls_key=b"KEY", scheduler_address="tls://s", dashboard_address="", api_address="")
    return b, cl, Stub(x, "worker", name="w1", cluster=cl, state={})


class Launcher:
    """the answers of sudo and the launcher"""
    def __init__(self, x, p):
        self.x, self.calls = x, []
        self.kind = x.choice("launcher", ["answers", "error", "fails"])
        self.code = x.int("code", -64, 255)
        p.set(asyncio, "create_subprocess_exec", self.spawn)
        p.set(asyncio, "create_subprocess_shell", lambda *a, **k: x.missing("a shell"))

    def script(self, out, err):
        self.out, self.err = out, err

    async def spawn(self, *cmd, **kw):
        async def communicate(stdin=None):
            self.calls.append((cmd, self.x.unjson(stdin.decode("utf8")), kw))
            if self.kind == "fails":
                return b"", b"sudo: no"
            if self.kind == "error":
                return self.dump({"ok": False, "error": "no space"}), b""
            return self.dump({"ok": True, "returncode": self.code, "stdout": self.out, "stderr": self.err}), b""
        return Stub(self.x, "process", pid=1, returncode=1 if self.kind == "fails" else 0, communicate=communicate)

    def dump(self, v):
        if self.x.symbolic:
            from symx import models
            return models.m_dumps(v).encode("utf8")
        import json
        return json.dumps(v).encode("utf8")

    def one(self, user, action):
        x = self.x
        x.check(len(self.calls) == 1, "the launcher is asked once")
        cmd, req, kw = self.calls[0]
        x.check(list(cmd)[0] == "sudo" and list(cmd)[-2:] == [user, "/opt/launch"], "it runs as the owning user")
        x.check(req.get("action") == action, "it is asked to " + action)
        return req


@unit("start", params=[{"system": s, "worker": w} for s in ("slurm", "pbs") for w in (False, True)], reach=["recorded", "failed"])
def start(x, system, worker):
    user = x.choice("user", ["alice", "bob"])
    with Patch() as p:
        FakeOS(x, users={"alice": (1000, 1001, "/v/home/alice", []), "bob": (1, 2, "/v/b", [])}).install(p)
        b, cl, wk = make(x, system, user=user)
        la = Launcher(x, p)
        jid = x.str("id", 2, 1, alphabet="0123456789")
        tail = x.choice("tail", ["\n", "", " \n"])
        la.script(jid + tail, x.str("stderr", 2, 2))
        states = []
        error = None

        async def run():
            async for s in (b.do_start_worker(wk) if worker else b.do_start_cluster(cl)):
                states.append(s)
        try:
            run_coro(x, run)
        except Exception as e:
            error = e
        req = la.one(user, "start")
        if worker:
            x.check(not req.get("staging_dir") and not req.get("files"), "a worker uses the files of its cluster")
        else:
            home = {"alice": "/v/home/alice", "bob": "/v/b"}[user]
            x.check(req["staging_dir"] == home + "/stage/" + user + "/c1", "the staging directory is the cluster's own")
            x.check(sorted(req["files"]) == ["dask.crt", "dask.pem"] and req["files"]["dask.crt"] == "CERT" and req["files"]["dask.pem"] == "KEY", "the credentials are staged")
        if la.kind == "answers" and la.code == 0:
            x.check(error is None and len(states) >= 1, "a submission that succeeded is no failure")
            x.check(bool(x.eq(states[-1].get("job_id"), jid)), "the job is recorded under the id the batch system returned")
            x.check(worker or states[-1].get("staging_dir") == req["staging_dir"], "the staging directory is recorded")
            x.reach("recorded")
        else:
            x.check(error is not None and not [s for s in states if s.get("job_id") is not None], "a failed submission records no job")
            part = {"fails": "sudo: no", "error": "no space", "answers": la.err}[la.kind]
            x.check(holds(x, error.args[0], part), "a failed submission is reported with its output")
            x.reach("failed")


def holds(x, text, part):
    """part is written in text"""
    if not x.symbolic:
        return part in text
    from symx import values as V
    if not V.is_sym(text):
        return not V.is_sym(part) and part in text
    parts = getattr(text, "parts", None)
    if parts is not None and any(q is part for q in parts):
        return True
    return x.any(*[x.eq(text[i:i + len(part)], part) for i in range(len(text) - len(part) + 1)])


@unit("stop", params=[{"system": s, "worker": w} for s in ("slurm", "pbs") for w in (False, True)], reach=["cancelled", "nothing", "failed"])
def stop(x, system, worker):
    user = x.choice("user", ["alice", "bob"])
    with Patch() as p:
        FakeOS(x, users={"alice": (1000, 1001, "/v/home/alice", []), "bob": (1, 2, "/v/b", [])}).install(p)
        b, cl, wk = make(x, system, user=user)
        la = Launcher(x, p)
        jid = x.str("id", 2, 1, alphabet="0123456789")
        finished = x.flip("finished")
        la.script("", "qdel: Job has finished 1\n" if finished else x.str("stderr", 2, 2))
        st = {}
        if x.flip("started"):
            st = {"job_id": jid}
            if not worker:
                st["staging_dir"] = "/v/recorded"
        (wk if worker else cl).state = st
        error = None
        try:
            run_coro(x, lambda: b.do_stop_worker(wk) if worker else b.do_stop_cluster(cl))
        except Exception as e:
            error = e
        if not st:
            x.check(not la.calls and error is None, "what was never submitted is not cancelled")
            x.reach("nothing")
            return
        req = la.one(user, "stop")
        x.check(len(req["cmd"]) == 2 and req["cmd"][0] == "del" and bool(x.eq(req["cmd"][1], jid)), "exactly this job is cancelled")
        x.check(req.get("staging_dir") == (None if worker else "/v/recorded"), "the recorded staging directory is removed")
        good = la.kind == "answers" and (bool(la.code == 0) or finished)
        x.check((error is None) == good, "a cancellation fails exactly when the batch system refuses it and the job is not finished anyway")
        x.reach("cancelled" if good else "failed")


def listing(x, system, rows):
    out = "Job id            Name             User              Time Use S Queue\n----------------  ---------------- ----------------  -------- - -----\n" if system == "pbs" else ""
    for i, s in rows:
        if system == "pbs":
            out = out + i + "            dask-gateway     alice             00:00:01 " + s + " workq           \n"
        else:
            out = out + i + " " + s + "\n"
    return out


SP = [{"system": s, "what": w} for s in ("slurm", "pbs") for w in ("workers", "clusters")]


@unit("status", params=[dict(p, shape="1 job, 1 line") for p in SP] + [dict(p, shape="2 jobs, 2 lines") for p in SP], thorough_params=[dict(p, shape="2 jobs, 3 lines") for p in SP], reach=["alive", "dead", "unknown"], time_limit=850)
def status(x, system, what, shape):
    top_jobs, top_lines = int(shape[0]), int(shape.split(", ")[1][0])
    few = top_jobs == 1
    with Patch() as p:
        FakeOS(x, users={"alice": (1000, 1001, "/v/home/alice", [])}).install(p)
        b, cl, wk = make(x, system)
        calls = []
        code = x.int("code", 0, 255)
        lines = x.choice("lines", [0, 1] if few else [top_lines])
        suffix = "" if system == "slurm" else ".srv"
        rows = [(x.str("row%d" % i, 2 if few else 1, 1, alphabet="0123456789") + suffix, x.str("state%d" % i, 2 if system == "slurm" else 1, 2 if system == "slurm" and i == 1 else 1, alphabet="ABCDEFGHIJKLMNOPQRSTUVWXYZ")) for i in range(lines)]
        for i in range(lines):
            for j in range(i):
                x.assume(rows[i][0] != rows[j][0])

        async def spawn(*cmd, **kw):
            calls.append(list(cmd))

            async def communicate(stdin=None):
                return listing(x, system, rows).encode("utf8"), b"no"
            return Stub(x, "process", pid=1, returncode=code, communicate=communicate)
        p.set(asyncio, "create_subprocess_exec", spawn)
        objs, ids = [], []
        for i in range(x.choice("n", [1, 0] if few else [2])):
            has = x.flip("has%d" % i)
            jid = x.str("id%d" % i, 2 if few else 1, 1, alphabet="0123456789") + suffix if has else None
            st = {"job_id": jid} if has else x.choice("state_%d" % i, [{}, {"job_id": None}])
            ids.append(jid)
            objs.append(Stub(x, "object", name="o%d" % i, state=st, cluster=cl, username="alice"))
        try:
            got = run_coro(x, lambda: (b.do_check_workers if what == "workers" else b.do_check_clusters)(objs))
        except Exception as e:
            x.check(bool(calls) and bool(code != 0), "a status command that succeeded is understood (%s)" % type(e).__name__)
            x.reach("unknown")
            return
        asked = [j for j in ids if j is not None]
        x.check(bool(calls) == bool(asked) or not calls, "the batch system is asked about known jobs only")
        x.check(not calls or bool(code == 0), "a failed status command gives no answer")
        got = list(got)
        x.check(len(got) == len(objs), "one answer for each object")
        for i, jid in enumerate(ids):
            if jid is None:
                x.check(not got[i], "what has no job is not alive")
                x.reach("dead")
                continue
            mine = [s for r, s in rows if r == jid]
            if not mine:
                x.check(not got[i], "a job the batch system does not know is not alive")
                x.reach("dead")
            elif x.any(*[mine[0] == a for a in ALIVE[system]]):
                x.check(bool(got[i]), "a running or waiting job is alive")
                x.reach("alive")
            elif not x.any(*[mine[0] == a for a in UNSURE[system]]):
                x.check(not got[i], "a finished job is not alive")
                x.reach("dead")
        for c in calls:
            x.check(c[0] == "stat", "the status command is run")
            text = c[2] if system == "slurm" else None
            for j in asked:
                if system == "pbs":
                    x.check(x.any(*[x.eq(a, j) for a in c[1:] if x.is_str(a)]), "every job is asked about")
                else:
                    jobs = [x.after(a, "--job=") for a in c if a.startswith("--job=")]
                    x.check(len(jobs) == 1 and bool(x.any(*[x.eq(q, j) for q in jobs[0].split(",")])), "every job is asked about")
