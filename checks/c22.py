"""C22: local clusters keep files private and their processes are always stopped."""
import asyncio
import errno
import os
import signal

from dblib import make_backend_of
from oslib import FakeOS, virtual
from symx.env import Patch, Stub, sync, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real local and in-process backends (Python source) against a model of files, processes and time; z3 over linear arithmetic for process lifetimes and signal delays"
LEVEL_NOTE = "Every place and kind of clusters directory, every single failing file operation; every process lifetime, reaction to each signal and grace time within bounds (real time, multiples of 1/8 s); every set of up to 3 clusters or workers in any state for status checks."
BOUNDS = "grace times up to 2, 1 and 1 s (thorough 8, 4 and 1 s), a process that ends by itself within 100 s or never, and after each signal within 100 s or never; one failing file operation per start; at most 3 objects per status check"
OUTSIDE = "the operating system's own file permissions and reuse of process ids; the Dask library classes of the in-process backend are stand-ins"
ASSUMPTIONS = ["a signal sent to a process that has ended fails with ESRCH (children are reaped by the event loop)"]
USERS = {"alice": (1000, 1001, "/v/home/alice", [27, 1001]), "bob": (2000, 2001, "/v/home/bob", [27])}


def cluster(x, name="c1", user="alice", state=None):
    from dask_gateway_server.backends.local import LocalClusterConfig
    from dask_gateway_server.utils import FrozenAttrDict
    return Stub(x, "cluster", name=name, username=user, token="tok", config=FrozenAttrDict(LocalClusterConfig().to_dict()), state=state or {}, tls_cert=b"CERT", tls_key=b"KEY",
                scheduler_address="tls://s", dashboard_address="", api_address="")


def setup(x, p, fault=None, umask=0):
    import dask_gateway_server.backends.local as m
    fs = FakeOS(x, users=USERS, fault=fault, umask=umask).install(p)
    getattr(m.getpwnam, "cache_clear", lambda: None)()
    return m, fs


OPS = ["mkdir", "open", "write", "chown", "spawn"]


@unit("start", params=[{"unsafe": u} for u in (False, True)], reach=["started", "failed"])
def start(x, unsafe):
    umask = x.choice("umask", [0o022, 0])
    failing = x.choice("failing", [None] + OPS)
    nth = x.choice("nth", [0, 1, 2]) if failing else 0
    user = x.choice("user", ["alice", "bob"])
    count = {}
    spawned = []
    state = {"armed": False}

    def fault(op, path):
        if not state["armed"] or op != failing:
            return
        count[op] = count.get(op, 0) + 1
        if count[op] == nth + 1:
            raise OSError(errno.EIO, "injected", path)
    with Patch() as p:
        m, fs = setup(x, p, fault, umask)

        async def spawn(*cmd, **kw):
            fault("spawn", None)
            spawned.append(kw)
            return Stub(x, "process", pid=77)
        p.set(asyncio, "create_subprocess_exec", spawn)
        where = x.choice("clusters_directory", ["/v/clusters", ""])
        fs.makedirs("/v/clusters", 0o755)
        before = dict(fs.nodes)
        b = make_backend_of(x, m.UnsafeLocalBackend if unsafe else m.LocalBackend, clusters_directory=where)
        cl = cluster(x, user=user)
        states = []

        async def run():
            async for s in b.do_start_cluster(cl):
                states.append(s)
                cl.state = s
        state["armed"] = True
        try:
            run_coro(x, run)
            ok = True
        except OSError as e:
            if e.errno != errno.EIO:
                raise
            ok = False
        state["armed"] = False
        x.check(ok or failing is not None, "a start without a failing operation succeeds")
        made = {q: n for q, n in fs.nodes.items() if q not in before and n is not None and q != "/v/tmp"}
        for q, n in made.items():
            if n.kind == "dir" and q.count("/") <= 3:
                x.check(n.mode & 0o077 == 0, "the working directory is closed to other users")
        wd = states[0]["workdir"] if states else None
        x.check(not fs.fds, "no file is left open")
        uid, gid = USERS[user][:2]
        owned = [e[1] for e in fs.log if e[0] == "chown"]
        for e in [e for e in fs.log if e[0] == "chown"]:
            x.check(e[1] in made, "ownership changes only for what was created")
            x.check(e[2] == uid and e[3] == gid, "what was created is given to the user")
        if ok:
            x.check(states[-1].get("pid") == 77 and states[-1].get("workdir") == wd, "the process and its directory are recorded")
            x.check(wd in made and fs.nodes[wd].kind == "dir", "a working directory is created")
            cert, key = b.get_tls_paths(cl)
            for path, data in ((cert, b"CERT"), (key, b"KEY")):
                x.check(path in made and path.startswith(wd + "/") and fs.nodes[path].data == data, "the credentials are stored in the working directory")
                x.check(fs.nodes[path].mode & 0o077 == 0, "the credential files are closed to other users")
                d = os.path.dirname(path)
                x.check(fs.nodes[d].mode & 0o077 == 0, "the directory of the credentials is closed to other users")
            if not unsafe:
                for q in made:
                    if not q.endswith(".log"):
                        x.check(q in owned, "everything created for the cluster is given to the user")
            else:
                x.check(not owned, "without user separation no ownership changes")
            x.check(len(spawned) == 1, "one process is started")
            spawned[0]["preexec_fn"]()
            calls = [c for c in fs.calls]
            if unsafe:
                x.check(calls == [("chdir", wd)], "the process starts in the working directory")
            else:
                names = [c[0] for c in calls]
                x.check(("setuid", uid) in calls and ("setgid", gid) in calls and ("chdir", wd) in calls, "the process runs as the user in the working directory")
                x.check(names.index("setuid") > names.index("setgid"), "the group is set while that is still permitted")
                groups = [c[1] for c in calls if c[0] == "setgroups"]
                if "initgroups" not in names:
                    x.check(len(groups) == 1 and 0 not in groups[0] and 27 in groups[0], "the process has the user's groups only")
                    x.check(names.index("setuid") > names.index("setgroups"), "the groups are set while that is still permitted")
            x.reach("started")
        else:
            x.check(not spawned or failing == "spawn", "no process is started after a failure")
            x.reach("failed")
        # stopping it removes the directory, whatever had been done
        if wd is not None:
            dead = lambda pid, sig: (_ for _ in ()).throw(ProcessLookupError(errno.ESRCH, "gone"))
            fs.kill = dead
            others = [q for q in fs.nodes if not (q == wd or q.startswith(wd + "/"))]
            run_coro(x, lambda: b.do_stop_cluster(cl))
            x.check(not [q for q in fs.nodes if q == wd or q.startswith(wd + "/")], "the working directory is removed with the cluster")
            x.check(all(q in fs.nodes for q in others), "nothing else is removed")


class Proc:
    """one process: ends by itself at `own`, or some time after a signal"""
    def __init__(self, x, loop):
        self.x, self.loop = x, loop
        self.signals = []
        self.end = x.time("own", 0, 100) if x.flip("ends") else None
        self.delay = {}
        self.told = False

    def alive(self):
        return self.end is None or bool(self.loop.time() < self.end)

    def kill(self, pid, sig):
        self.x.check(pid == 4242, "only the process itself is signalled")
        if not self.alive():
            self.x.check(sig == 0 or not self.told, "a process known to be gone is not signalled again (its id may be in use again)")
            self.told = True
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if sig == 0:
            return
        now = self.loop.time()
        self.x.check(sig not in [s for s, t in self.signals], "no signal is sent twice")
        self.signals.append((sig, now))
        if self.x.flip("heeds%d" % len(self.signals)):
            d = now + self.x.time("delay%d" % len(self.signals), 0, 100)
            if self.end is None or d < self.end:
                self.end = d


@unit("stop", params=[{"what": "worker", "top": 2}, {"what": "cluster", "top": 1}], thorough_params=[{"what": "worker", "top": 8}], reach=["gone", "polite", "killed", "zombie"])
def stop(x, what, top):
    grace = [x.int("sigint", 0, top), x.int("sigterm", 0, max(1, top // 2)), x.int("sigkill", 0, 1)]
    with Patch() as p:
        m, fs = setup(x, p)
        fs.makedirs("/v/w/logs")
        b = make_backend_of(x, m.LocalBackend, sigint_timeout=grace[0], sigterm_timeout=grace[1], sigkill_timeout=grace[2])
        cl = cluster(x, state={"workdir": "/v/w", "pid": 4242})
        wk = Stub(x, "worker", name="w1", cluster=cl, state={"pid": 4242})

        async def run():
            loop = asyncio.get_running_loop()
            pr = Proc(x, loop)
            fs.kill = pr.kill
            alive0 = pr.alive()
            if what == "worker":
                await b.do_stop_worker(wk)
            else:
                await b.do_stop_cluster(cl)
                x.check("/v/w" not in fs.nodes, "the working directory is removed with the cluster")
            sent = [s for s, t in pr.signals]
            t = [t for s, t in pr.signals]
            x.observe("signals", [(int(s), u) for s, u in pr.signals])
            want = [signal.SIGINT, signal.SIGTERM, signal.SIGKILL]
            x.check(sent == want[:len(sent)], "politely first, forcibly last")
            for i in range(1, len(t)):
                x.check(t[i] - t[i - 1] >= grace[i - 1], "the process is given its grace time")
            if not alive0:
                x.check(not sent, "a process that is already gone is not signalled")
                x.reach("gone")
            elif not pr.alive():
                x.reach("killed" if len(sent) == 3 else "polite")
            else:
                x.check(len(sent) == 3, "a process that is still running has been sent every signal")
                x.check(loop.time() - t[-1] >= grace[2], "the process is given its grace time")
                x.reach("zombie")
            x.check(loop.time() <= 3 * (grace[0] + grace[1] + grace[2]) + 9, "stopping does not wait for ever")
        run_coro(x, run)


@unit("nothing", reach=["done"])
def nothing(x):
    """what was never started is stopped without effect"""
    with Patch() as p:
        m, fs = setup(x, p)
        b = make_backend_of(x, m.LocalBackend)
        st = x.choice("state", [{}, {"workdir": "/v/w"}, {"workdir": "/v/gone"}, {"workdir": None, "pid": None}])
        fs.makedirs("/v/w/logs")
        cl = cluster(x, state=dict(st))
        run_coro(x, lambda: b.do_stop_cluster(cl))
        run_coro(x, lambda: b.do_stop_worker(Stub(x, "worker", name="w", cluster=cl, state={})))
        x.check(("/v/w" in fs.nodes) == (st.get("workdir") != "/v/w"), "the directory of a cluster that has no process is removed")
        x.reach("done")


@unit("status", params=[{"what": w} for w in ("workers", "clusters")], reach=["alive", "dead"])
def status(x, what):
    with Patch() as p:
        m, fs = setup(x, p)
        b = make_backend_of(x, m.LocalBackend)
        objs, pids = [], []
        for i in range(3):
            st = {"pid": x.int("pid%d" % i, 1, 4)} if x.flip("has%d" % i) else {}
            objs.append(cluster(x, "c%d" % i, state=st) if what == "clusters" else Stub(x, "worker", name="w%d" % i, cluster=None, state=st))
            pids.append(st.get("pid"))
        alive = {i: x.bool("alive%d" % i) for i in (1, 2, 3, 4)}

        def kill(pid, sig):
            x.check(sig == 0, "a status check sends no signal")
            if not x.any(*[x.all(pid == i, alive[i]) for i in alive]):
                raise ProcessLookupError(errno.ESRCH, "No such process")
        fs.kill = kill
        n = x.choice("n", [0, 1, 3])
        got = run_coro(x, lambda: (b.do_check_workers if what == "workers" else b.do_check_clusters)(objs[:n]))
        got = list(got)
        x.check(len(got) == n, "one answer for each object")
        for i in range(n):
            want = pids[i] is not None and bool(x.any(*[x.all(pids[i] == k, alive[k]) for k in alive]))
            x.check(bool(got[i]) == want, "a process is reported alive exactly when it is")
            x.reach("alive" if want else "dead")


@unit("inprocess", params=[{"what": w} for w in ("workers", "clusters")], reach=["alive", "dead"])
def inprocess(x, what):
    """the in-process backend reports what is not closed as alive"""
    import dask_gateway_server.backends.inprocess as m
    from distributed.core import Status
    b = make_backend_of(x, m.InProcessBackend)
    objs, want = [], []

    def thing(i):
        s = x.choice("status%d" % i, [None, Status.running, Status.closed, Status.init])
        return s

    async def run():
        await b.do_setup()
        made = {}

        class Made(Stub):
            def __init__(self, *a, **kw):
                Stub.__init__(self, x, "dask", status=Status.running, closed=0)

            def __await__(self):
                return self.go().__await__()

            async def go(self):
                return self

            async def close(self, *a, **kw):
                self.closed += 1
                self.status = Status.closed

            def stop(self):
                pass
        with Patch() as p:
            for n in ("Scheduler", "Worker"):
                p.set(m, n, Made)
            for n in ("Security", "make_gateway_client"):
                p.set(m, n, lambda *a, **kw: None)
            fs = FakeOS(x, users=USERS).install(p)
            cs = [cluster(x, "c%d" % i, state={}) for i in range(2)]
            fs.makedirs("/v/clusters")
            b._trait_values["clusters_directory"] = "/v/clusters"
            objs = []
            for i, c in enumerate(cs):
                w = Stub(x, "worker", name="w%d" % i, cluster=c, state={})
                o = c if what == "clusters" else w
                objs.append(o)
                st = x.choice("started%d" % i, ["no", "yes", "closed"])
                c.state = {"workdir": "/v/clusters/c%d" % i}
                if st == "no":
                    fs.makedirs("/v/clusters/c%d" % i)
                    want.append(False)
                    continue
                async for s in (b.do_start_cluster(c) if what == "clusters" else b.do_start_worker(w)):
                    o.state = s
                table = b.schedulers if what == "clusters" else b.workers
                made[i] = table[o.name]
                if st == "closed":
                    made[i].status = Status.closed
                want.append(st == "yes")
            got = list(await (b.do_check_clusters if what == "clusters" else b.do_check_workers)(objs))
            x.check([bool(g) for g in got] == want, "alive exactly when it is not closed")
            x.reach("alive" if True in want else "dead")
            for i, o in enumerate(objs):
                await (b.do_stop_cluster if what == "clusters" else b.do_stop_worker)(o)
                if what == "clusters":
                    x.check("/v/clusters/c%d" % i not in fs.nodes, "the working directory is removed with the cluster")
                if i in made:
                    x.check(made[i].status == Status.closed, "what runs in the process is closed")
    run_coro(x, run)
