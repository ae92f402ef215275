"""C11: scaling creates exactly the missing workers and stops retrying at the limit."""
import asyncio

from dblib import Database, add_cluster, add_worker, cleanup, make_backend
from lifelib import hang, one_pass, outcome, pair_ok, worker_valid
from symx.env import Clock, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real scaling, submission, status check and heartbeat code (Python source); z3 over counts, failure counts, limits and worker stages"
LEVEL_NOTE = "Inductive: any stages of the existing workers, any failure count and limit (unbounded), desired counts up to 4 (thorough 6) above zero; trusts the SQL model."
BOUNDS = "0..2 (thorough 3) existing workers in any valid stage, desired count 0..4 (thorough 0..6), failure counts and limits unbounded; submissions one at a time"
OUTSIDE = "desired counts beyond the bound (the creation loop is unrolled); Kubernetes clusters (C26)"
ASSUMPTIONS = ["worker names are fresh (uuid4)", "a relational model replaces SQLAlchemy's execution (replays use SQLite)"]
replay_cleanup = cleanup


@unit("scale", params=[{"n": n, "top": 4, "first": f} for n in (0, 1, 2) for f in ("RUNNING", "SUBMITTED")],
      thorough_params=[{"n": 3, "top": 4, "first": "RUNNING"}, {"n": 2, "top": 6, "first": "RUNNING"}], reach=["created", "enough", "given_up"])
def scale(x, n, top, first):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            count = x.int("count", 0, top)
            add_cluster(db, 1, "c1", J[first], J.RUNNING, count=count, scheduler_address="tls://s:1")
            add_cluster(db, 2, "c2", J.RUNNING, J.RUNNING, count=2)
            st = []
            for i in range(n):
                s, t = x.enum("w%d.status" % i, J), x.enum("w%d.target" % i, J)
                x.assume(pair_ok(x, worker_valid(J), s, t))
                x.assume(t != J.CLOSING)
                add_worker(db, i + 1, "w%d" % i, 1, s, t)
                st.append((s, t))
            limit = x.int("failure_limit", 1)
            b = make_backend(x, db, worker_start_failure_limit=limit)
            c = b.db.get_cluster("c1")
            c.worker_start_failure_count = fails = x.int("failures", 0)
            before = list(c.workers.values())
            await b.reconcile_cluster(c)
            ws = list(c.workers.values())
            new = [w for w in ws if not any(w is o for o in before)]
            rows = db.rows("workers")
            x.observe("result", [len(new), c.target, len(rows)])
            active = x.count([t < J.STOPPED for s, t in st])
            x.check(x.all(*[x.all(w.status == s, w.target == t) for w, (s, t) in zip(before, st)]), "existing workers are left alone")
            x.check(len(b.db.get_cluster("c2").workers) == 0, "other clusters get no workers")
            if fails >= limit:
                x.check(x.all(c.target == J.FAILED, b.queue.has(c), len(new) == 0), "at the failure limit the cluster fails and no worker is created")
                x.reach("given_up")
                return
            x.check(c.target == J.RUNNING, "below the failure limit the cluster goes on")
            x.check(len(new) == x.max(count - active, 0), "exactly the missing workers are created")
            x.check(len(rows) == n + len(new), "the database has the same workers")
            for w in new:
                x.check(x.all(w.cluster is c, w.status == J.CREATED, w.target == J.RUNNING, b.queue.has(w)), "a new worker belongs to the cluster and is queued to be submitted")
            x.check(len(set(w.name for w in ws)) == len(ws), "worker names differ")
            x.reach("created" if new else "enough")
    run_coro(x, main)


@unit("idle", reach=["none"])
def idle(x):
    """a cluster that is not running, or asked to stop, gets no workers"""
    import dask_gateway_server.backends.db_base as m
    from dblib import VALID
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            s, t = x.enum("status", J), x.enum("target", J)
            x.assume(pair_ok(x, [p for p in VALID(J) if p != (J.RUNNING, J.RUNNING)], s, t))
            has = x.flip("address")
            x.assume(x.no(x.all(s == J.SUBMITTED, t == J.RUNNING, has)))
            add_cluster(db, 1, "c1", s, t, count=x.int("count", 0), scheduler_address="a" if has else "")
            b = make_backend(x, db)
            c = b.db.get_cluster("c1")
            await b.reconcile_cluster(c)
            x.check(x.all(len(c.workers) == 0, len(db.rows("workers")) == 0), "only a running cluster gets workers")
            x.reach("none")
    run_coro(x, main)


@unit("submit", reach=["started", "failed"])
def submit(x):
    """one submission of a worker, then what was queued for it"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            add_cluster(db, 1, "c1", J.RUNNING, J.RUNNING, count=1)
            add_worker(db, 1, "w1", 1, J.CREATED, J.RUNNING)
            how = outcome(x, "start")
            stop_fails = x.flip("stop_fails")

            async def run(op):
                if op == "stop_worker":
                    if stop_fails:
                        raise RuntimeError("stop failed")
                    return None
                if how == "error":
                    raise RuntimeError("start failed")
                if how == "hangs":
                    await hang()
                return [{"id": 1}]
            b = make_backend(x, db, lambda op, obj: run(op))
            c = b.db.get_cluster("c1")
            w = c.workers["w1"]
            fails = x.int("failures", 0)
            c.worker_start_failure_count = fails
            await b.reconcile_worker(w)
            x.observe("after", [w.status, w.target])
            if how == "ok":
                x.check(x.all(w.status == J.SUBMITTED, w.target == J.RUNNING, c.worker_start_failure_count == fails), "a submitted worker is no failure")
                x.reach("started")
                return
            x.check(c.worker_start_failure_count == fails + 1, "a failed submission counts as one failure")
            x.check(x.all(w.target == J.FAILED, b.queue.has(w)), "a failed submission leads to the worker being stopped")
            b.queue.items.clear()
            await b.reconcile_worker(w)
            x.check(x.all(w.status == J.FAILED, ("stop_worker", w) in b.calls), "the worker that failed is stopped")
            x.check(b.queue.has(c), "the cluster is reconciled again after the worker failed")
            x.check(c.worker_start_failure_count == fails + 1, "stopping it counts no further failure")
            x.reach("failed")
    run_coro(x, main)


@unit("died", params=[{"n": 1}, {"n": 2}], reach=["checked"])
def died(x, n):
    """submitted workers the backend reports dead: one failure each, and they are stopped"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            add_cluster(db, 1, "c1", J.RUNNING, J.RUNNING)
            st = []
            for i in range(n):
                s, t = x.enum("w%d.status" % i, J), x.enum("w%d.target" % i, J)
                x.assume(pair_ok(x, worker_valid(J), s, t))
                x.assume(t != J.CLOSING)
                add_worker(db, i + 1, "w%d" % i, 1, s, t)
                st.append((s, t))
            ok = [x.bool("alive%d" % i) for i in range(n)]
            b = make_backend(x, db, lambda op, objs: [ok[int(w.name[1:])] for w in objs] if op == "check_workers" else [True for _ in objs])
            c = b.db.get_cluster("c1")
            ws = list(c.workers.values())
            fails = x.int("failures", 0)
            c.worker_start_failure_count = fails
            await one_pass(b.check_workers_loop(), 30)
            dead = [x.all(s == J.SUBMITTED, t == J.RUNNING, x.no(k)) for (s, t), k in zip(st, ok)]
            x.observe("after", [[w.status, w.target] for w in ws])
            x.check(c.worker_start_failure_count == fails + x.count(dead), "every submitted worker that died counts as one failure")
            for w, d, (s, t) in zip(ws, dead, st):
                x.check(x.implies(d, x.all(w.target == J.FAILED, b.queue.has(w))), "a submitted worker that died is stopped")
                x.check(x.implies(x.no(d), w.target == t), "other workers are left alone")
            x.reach("checked")
    run_coro(x, main)


@unit("consecutive", params=[{"limit": 1}, {"limit": 2}, {"limit": 3}], thorough_params=[{"limit": 5}], reach=["given_up", "recovered"])
def consecutive(x, limit):
    """a history of worker starts: the cluster fails exactly when the last `limit` starts failed in a row"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            add_cluster(db, 1, "c1", J.RUNNING, J.RUNNING, count=1, scheduler_address="a")
            fail_now = [False]

            async def run(op):
                if op == "start_worker" and fail_now[0]:
                    raise RuntimeError("start failed")
                return [] if op == "start_worker" else None
            b = make_backend(x, db, lambda op, obj: run(op), worker_start_failure_limit=limit)
            c = b.db.get_cluster("c1")
            row = 0
            closed = []
            for step in range(limit + 2):
                n0 = len(c.workers)
                await b.reconcile_cluster(c)
                if row >= limit:
                    x.check(x.all(c.target == J.FAILED, len(c.workers) == n0), "after that many failures in a row the cluster fails and starts no worker")
                    x.reach("given_up")
                    return
                x.check(x.all(c.target == J.RUNNING, len(c.workers) == n0 + 1), "before that the missing worker is created")
                w = list(c.workers.values())[-1]
                fail_now[0] = x.flip("fails")
                await b.reconcile_worker(w)
                if fail_now[0]:
                    row += 1
                    await b.reconcile_worker(w)
                else:
                    hb = {"count": 1, "api_address": "a", "scheduler_address": "s", "dashboard_address": ""}
                    await b.on_cluster_heartbeat("c1", dict(hb, active_workers=[w.name], closing_workers=[], closed_workers=list(closed)))
                    row = 0
                    closed.append(w.name)
                    await b.on_cluster_heartbeat("c1", dict(hb, active_workers=[], closing_workers=[], closed_workers=list(closed)))
                    await b.reconcile_worker(w)
                    x.check(w.status == J.FAILED, "the worker that left is finished")
                    x.reach("recovered")
    run_coro(x, main)


@unit("reset", params=[{"n": 1}, {"n": 2}], reach=["reset", "kept"])
def reset(x, n):
    """a heartbeat resets the failure count exactly when it brings the news of a worker having started"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            add_cluster(db, 1, "c1", J.RUNNING, J.RUNNING, count=x.int("count", 0))
            rep = {"active_workers": [], "closing_workers": [], "closed_workers": []}
            news = []
            for i in range(n):
                s, t = x.enum("w%d.status" % i, J), x.enum("w%d.target" % i, J)
                x.assume(pair_ok(x, worker_valid(J), s, t))
                x.assume(t != J.CLOSING)
                add_worker(db, i + 1, "w%d" % i, 1, s, t)
                r = x.choice("w%d.report" % i, ["active_workers", "closing_workers", "closed_workers", None])
                if r is None:
                    x.assume(x.any(s < J.RUNNING, t >= J.STOPPED))
                else:
                    rep[r].append("w%d" % i)
                    if r != "closed_workers":
                        news.append(s < J.RUNNING)
            b = make_backend(x, db)
            c = b.db.get_cluster("c1")
            fails = x.int("failures", 1)
            c.worker_start_failure_count = fails
            await b.on_cluster_heartbeat("c1", dict(rep, count=x.int("new_count", 0), api_address="a", scheduler_address="s", dashboard_address=""))
            got = x.any(*news) if news else False
            x.check(c.worker_start_failure_count == x.ite(got, 0, fails), "the failure count is reset exactly when a worker started")
            x.reach("reset" if got else "kept")
    run_coro(x, main)
