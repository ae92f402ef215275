"""C12: a restart recovers exactly the last committed state, and memory never runs ahead of it."""
import asyncio

from dblib import VALID, Database, RecordingQueue, add_cluster, add_worker, backend_class, cleanup, fake_encryption, make_backend, same_as_committed
from lifelib import one_pass, pair_ok, worker_valid
from symx.env import Clock, Patch, Stub, UuidSeq, Uuid, set_traits, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real DataManager and backend steps (Python source) over a relational model of the database with a failure at any database operation; z3 over all stored values"
LEVEL_NOTE = "Arbitrary stored rows of 2 clusters and 2 workers; every operation with a failure at its begin, any statement or its commit; restart after 1 (thorough 2) operations or one heartbeat, reconciliation, timeout pass or stop."
BOUNDS = "2 clusters, 2 workers; 1 (thorough 2) consecutive operations, at most one injected database failure; user names up to 2 characters, symbolic times, counts, stages"
OUTSIDE = "the database's own durability; failures while the failure itself is being handled"
ASSUMPTIONS = ["a relational model replaces SQLAlchemy's execution (replays use SQLite, failures injected at the same operations)",
               "an invertible marking stands for the encryption (C13)"]
replay_cleanup = cleanup
KEYS = ["a" * 43 + "="]


class CrashedDatabase(Exception):
    pass


def populate(x, db, m, nc=2, nw=2, finished=True):
    J = m.JobStatus
    Uuid.fn = UuidSeq()
    for i in range(nc):
        s, t = x.enum("c%d.status" % i, J), x.enum("c%d.target" % i, J)
        x.assume(pair_ok(x, VALID(J), s, t))
        fin = bool(s >= J.STOPPED)
        add_cluster(db, i + 1, "c%d" % i, s, t, username=x.str("c%d.user" % i, 1, 1) if i else "u", tls=b"enc:cert%d;key%d" % (i, i), count=x.int("c%d.count" % i, 0),
                    start_time=x.int("c%d.start" % i, 0), stop_time=x.int("c%d.stop" % i, 0) if fin else None,
                    options={"o": x.int("c%d.option" % i)}, config={"cluster_max_workers": None, "environment": {}}, state={"job": x.int("c%d.job" % i)},
                    scheduler_address="tcp://s%d" % i, dashboard_address=x.choice("c%d.dash" % i, ["", "http://d"]) if i else "http://d0", api_address="http://a%d" % i)
        db.pending[-1][1]["token"] = b"enc:tok%d" % i
    for i in range(nw):
        s, t = x.enum("w%d.status" % i, J), x.enum("w%d.target" % i, J)
        x.assume(pair_ok(x, worker_valid(J), s, t))
        add_worker(db, i + 1, "w%d" % i, x.int("w%d.cluster" % i, 1, nc), s, t, start_time=x.int("w%d.start" % i, 0), close_expected=x.int("w%d.expected" % i, 0, 1),
                   stop_time=x.int("w%d.stop" % i, 0) if bool(s >= J.STOPPED) else None, state={"job": x.int("w%d.job" % i)})


def restart(x, db, m):
    """a new gateway process on the same database"""
    return m.DataManager(url=db.url, encrypt_keys=KEYS)


@unit("load", params=[{"nc": 2, "nw": 0}, {"nc": 1, "nw": 2}], thorough_params=[{"nc": 2, "nw": 1}], reach=["loaded"])
def load(x, nc, nw):
    """the whole start-up of the backend on an arbitrary database"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    now = x.int("now_ms", 0)
    Clock.wall = lambda: now / 1000

    async def main():
        with Database(x, persistent=True) as db, Patch() as p:
            fake_encryption(x, m, p)
            populate(x, db, m, nc, nw)
            cls = backend_class()
            b = cls()
            b.calls = []
            set_traits(b, db_url=db.url, db_encrypt_keys=KEYS, db_debug=False, parallelism=0, api_url="http://gw/api", backoff_base_delay=0.1, backoff_max_delay=1.0,
                       check_timeouts_period=20.0, cluster_status_period=30.0, worker_status_period=30.0, db_cleanup_period=600.0, db_cluster_max_age=1e6)
            put = []

            class Q(RecordingQueue):
                def put(self, item):
                    put.append(item)
            p.set(m, "WorkQueue", lambda *a, **k: Q(x))
            p.set(m, "Proxy", lambda **k: proxy)

            async def nothing(*a, **k):
                pass
            proxy = Stub(x, "proxy", setup=nothing, cleanup=nothing)
            p.set(m.Backend, "setup", nothing)
            p.set(cls, "cleanup_db_loop", nothing)
            await b.setup(Stub(x, "app"))
            x.check(same_as_committed(x, db, b.db, b"enc:"), "the gateway starts with exactly what the database holds")
            x.observe("queued", sorted(o.name for o in put))
            for c in b.db.id_to_cluster.values():
                x.check(x.implies(c.status < J.STOPPED, any(o is c for o in put)), "every unfinished cluster is queued again")
                x.check(x.iff(c.ready.is_set(), c.status >= J.RUNNING), "waiters of a cluster are released exactly if it is running or beyond")
                x.check(x.iff(c.shutdown.is_set(), c.status >= J.STOPPED), "a cluster counts as shut down exactly if it is finished")
                if c.status == J.RUNNING:
                    x.check(c.last_heartbeat == now, "a running cluster gets a whole heartbeat timeout after the restart")
                for w in c.workers.values():
                    x.check(x.implies(x.all(c.status < J.STOPPED, w.status < J.STOPPED), any(o is w for o in put)), "every unfinished worker is queued again")
            x.reach("loaded")
            for t in list(b.task_pool.pending if hasattr(b.task_pool, "pending") else []):
                t.cancel()
    run_coro(x, main)


OPS = ["create_cluster", "create_worker", "update_cluster", "update_clusters", "update_worker", "update_workers", "cleanup"]


def apply(x, m, dm, op, tag):
    J = m.JobStatus
    cs = list(dm.id_to_cluster.values())
    ws = [w for c in cs for w in c.workers.values()]
    val = lambda n: x.int("%s.%s" % (tag, n), 0)
    st = lambda n: x.enum("%s.%s" % (tag, n), J)
    if not cs and op != "create_cluster":
        return
    if op == "create_cluster":
        dm.create_cluster(x.choice(tag + ".user", ["u", "new"]), {"o": val("option")}, {"cluster_max_workers": val("limit"), "environment": {}})
    elif op == "create_worker":
        dm.create_worker(cs[0])
    elif op == "update_cluster":
        dm.update_cluster(cs[0], status=st("status"), target=st("target"), count=val("count"), state={"job": val("job")}, stop_time=val("stop"), api_address="http://new")
    elif op == "update_clusters":
        dm.update_clusters([(c, {"target": st("target%d" % i), "count": val("count%d" % i)}) for i, c in enumerate(cs)])
    elif op == "update_worker":
        if ws:
            dm.update_worker(ws[0], status=st("status"), state={"job": val("job")}, stop_time=val("stop"))
    elif op == "update_workers":
        dm.update_workers([(w, {"target": st("target%d" % i), "close_expected": True}) for i, w in enumerate(ws)])
    else:
        dm.cleanup_expired(x.time(tag + ".max_age", 0))


def keypair(name):
    return b"cert-" + name.encode(), b"key-" + name.encode()


@unit("op", params=[{"op": o, "then": None} for o in OPS], thorough_params=[{"op": a, "then": b} for a in OPS for b in OPS if "create_cluster" not in (a, b) or a != b], reach=["done", "failed"])
def operation(x, op, then):
    """one data manager operation, failing anywhere; then the process is restarted"""
    import dask_gateway_server.backends.db_base as m
    now = x.int("now_ms", 0)
    Clock.wall = lambda: now / 1000

    async def main():
        with Database(x, persistent=True) as db, Patch() as p:
            fake_encryption(x, m, p)
            p.set(m, "new_keypair", keypair)
            populate(x, db, m, 2 if op in ("cleanup", "update_clusters") else 1, 2 if op == "update_workers" else 1)
            dm = restart(x, db, m)
            fail = x.choice("fails", [None, "begin", "execute", "execute2", "commit"])
            for i, o in enumerate([op] + ([then] if then else [])):
                seen = {}
                hit = []

                def hook(kind):
                    seen[kind] = seen.get(kind, 0) + 1
                    name = kind + (str(seen[kind]) if seen[kind] > 1 else "")
                    if name == fail and not hit:
                        hit.append(1)
                        return True
                before = db.rows("clusters") + db.rows("workers")
                if i == 0:
                    db.hook = hook
                try:
                    apply(x, m, dm, o, "op%d" % i)
                    ok = True
                except Exception as e:
                    if not hit:
                        raise
                    ok = False
                db.hook = None
                x.check(ok == (not hit), "a failed operation is reported and a successful one is not")
                after = db.rows("clusters") + db.rows("workers")
                if not ok:
                    x.check(x.eq(before, after), "a failed operation commits nothing")
                x.check(same_as_committed(x, db, dm, b"enc:"), "a change is visible in memory exactly when it is committed")
                x.reach("done" if ok else "failed")
            dm2 = restart(x, db, m)
            x.check(same_as_committed(x, db, dm2, b"enc:"), "a restarted gateway has exactly the committed state")
            x.observe("clusters", len(dm2.id_to_cluster))
    run_coro(x, main)


STEPS = ["heartbeat", "reconcile_cluster", "reconcile_worker", "timeouts", "stop_cluster", "check_clusters", "check_workers", "start_cluster"]


@unit("step", params=[{"step": s, "n": 2 if s == "timeouts" else 1} for s in STEPS], thorough_params=[{"step": "heartbeat", "n": 2}, {"step": "reconcile_cluster", "n": 2}], reach=["compared"])
def step(x, step, n):
    """one backend activity, one database operation of which may fail: memory is never ahead of the database"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    now = x.int("now_ms", 0)
    Clock.wall = lambda: now / 1000

    async def main():
        with Database(x, persistent=True) as db, Patch() as p:
            fake_encryption(x, m, p)
            p.set(m, "new_keypair", keypair)
            populate(x, db, m, 1, n)
            b = make_backend(x, db, lambda op, o: [{"job": 9}] if op.startswith("start") else [False] * len(o) if op.startswith("check") else None, db_encrypt_keys=KEYS)
            b.supports_bulk_shutdown = x.flip("bulk") if step.startswith("reconcile") else False
            c = b.db.get_cluster("c0")
            ws = list(c.workers.values())
            x.assume(c.count <= len(ws) + 1)
            fail = x.int("fails_at", 0, 12)
            nth = [0]
            hit = []

            def hook(kind):
                nth[0] += 1
                if not hit and bool(fail == nth[0]):
                    hit.append(1)
                    return True
            db.hook = hook
            try:
                if step == "heartbeat":
                    rep = [x.choice("w%d.report" % i, ["active_workers", "closing_workers", "closed_workers", "none"]) for i in range(len(ws))]
                    for w, r in zip(ws, rep):
                        # a scheduler reports every worker it knows of (C25), and CLOSING is asked for only when the cluster stops
                        x.assume(x.all(x.any(r != "none", w.target >= J.STOPPED, w.status < J.RUNNING), x.any(w.target != J.CLOSING, c.target >= J.STOPPED)))
                    msg = {k: [w.name for w, r in zip(ws, rep) if r == k] for k in ("active_workers", "closing_workers", "closed_workers")}
                    await b.on_cluster_heartbeat("c0", dict(msg, count=x.int("count", 0), scheduler_address="tcp://n", dashboard_address="", api_address="http://n"))
                elif step == "reconcile_cluster":
                    await b.reconcile_cluster(c)
                elif step == "reconcile_worker":
                    await b.reconcile_worker(ws[0])
                elif step == "timeouts":
                    await one_pass(b.check_timeouts_loop(), 20)
                elif step == "check_clusters":
                    await one_pass(b.check_clusters_loop(), 30)
                elif step == "check_workers":
                    await one_pass(b.check_workers_loop(), 30)
                elif step == "stop_cluster":
                    await b.stop_cluster("c0", failed=x.flip("as_failed"))
                else:
                    async def opts(user, o):
                        return o, Stub(x, "config", to_dict=lambda: {"cluster_max_workers": 3, "environment": {}})
                    b.process_cluster_options = opts
                    await b.start_cluster(Stub(x, "user", name="u"), {"o": 1})
            except Exception:
                if not hit:
                    raise
            db.hook = None
            x.check(same_as_committed(x, db, b.db, b"enc:"), "memory is exactly what is committed")
            dm2 = restart(x, db, m)
            x.check(same_as_committed(x, db, dm2, b"enc:"), "a restarted gateway has exactly the committed state")
            x.observe("rows", [len(db.rows("clusters")), len(db.rows("workers")), bool(hit)])
            x.reach("compared")
    run_coro(x, main)
