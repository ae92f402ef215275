"""C10: timeouts fire exactly for what exceeded them."""
import asyncio

from dblib import VALID, Database, add_cluster, add_worker, cleanup, make_backend
from lifelib import one_pass, pair_ok, worker_valid
from symx.env import Clock, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real timeout pass and of the real submission under a virtual clock (Python source); z3 over all times, timeouts, stages and targets"
LEVEL_NOTE = "All times (unbounded milliseconds), all three timeouts (multiples of 1/8 s), every stage and target of 2 clusters and up to 2 (thorough 3) workers; trusts the SQL model."
BOUNDS = "one timeout pass over 2 clusters, the first with up to 2 (thorough 3) workers; one submission of a cluster or worker of any duration"
OUTSIDE = "heartbeats handled while the timeout pass runs (it has no suspension point); clocks that jump"
ASSUMPTIONS = ["a relational model replaces SQLAlchemy's execution (replays use SQLite)"]
replay_cleanup = cleanup


def configure(x, b):
    from symx.env import set_traits
    t = {k: x.time(k, 0) for k in ("cluster_heartbeat_timeout", "cluster_start_timeout", "worker_start_timeout")}
    set_traits(b, **t)
    return t["cluster_heartbeat_timeout"], t["cluster_start_timeout"], t["worker_start_timeout"]


@unit("pass", params=[{"n": 0, "state": "any"}, {"n": 1, "state": "any"}, {"n": 2, "state": "RUNNING"}], thorough_params=[{"n": 3, "state": "RUNNING"}, {"n": 2, "state": "SUBMITTED"}], reach=["checked"])
def timeout_pass(x, n, state):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    now = x.int("now_ms", 0)
    Clock.wall = lambda: now / 1000

    async def main():
        with Database(x) as db:
            cl, wk = [], []
            for i in range(2 if n < 2 else 1):
                s, t = x.enum("c%d.status" % i, J), x.enum("c%d.target" % i, J)
                x.assume(pair_ok(x, VALID(J) if state == "any" else [(J[state], J.RUNNING)], s, t))
                start = x.int("c%d.start" % i, 0)
                add_cluster(db, i + 1, "c%d" % i, s, t, start_time=start)
                cl.append([s, t, start, None])
            for i in range(n):
                s, t = x.enum("w%d.status" % i, J), x.enum("w%d.target" % i, J)
                x.assume(pair_ok(x, worker_valid(J), s, t))
                start = x.int("w%d.start" % i, 0)
                add_worker(db, i + 1, "w%d" % i, 1, s, t, start_time=start)
                wk.append((s, t, start))
            b = make_backend(x, db)
            hb_t, cs_t, ws_t = configure(x, b)
            cs = [b.db.get_cluster("c%d" % i) for i in range(len(cl))]
            for i, c in enumerate(cs):
                if c.status == J.RUNNING:
                    c.last_heartbeat = cl[i][3] = x.int("c%d.heartbeat" % i, 0)
            await one_pass(b.check_timeouts_loop(), 20)
            x.observe("clusters", [[c.status, c.target, b.queue.has(c)] for c in cs])
            x.observe("workers", [[w.status, w.target, b.queue.has(w)] for w in cs[0].workers.values()])
            dead = []
            for c, (s, t, start, hb) in zip(cs, cl):
                late = x.all(s == J.SUBMITTED, now - start > cs_t * 1000)
                silent = x.all(s == J.RUNNING, now - hb > hb_t * 1000) if hb is not None else False
                fire = x.all(t < J.STOPPED, x.any(late, silent))
                dead.append(fire)
                x.check(c.status == s, "a timeout does not change the stage")
                x.check(x.implies(fire, x.all(c.target == J.FAILED, b.queue.has(c))), "a cluster that exceeded its timeout is asked to fail and queued")
                x.check(x.implies(x.no(fire), x.all(c.target == t, not b.queue.has(c))), "a cluster within its timeout is left alone")
            s0, t0 = cl[0][:2]
            for w, (s, t, start) in zip(cs[0].workers.values(), wk):
                fire = x.all(s0 == J.RUNNING, t0 < J.STOPPED, x.no(dead[0]), s == J.SUBMITTED, t == J.RUNNING, now - start > ws_t * 1000)
                x.check(w.status == s, "a timeout does not change a worker's stage")
                x.check(x.implies(fire, x.all(w.target == J.FAILED, b.queue.has(w))), "a worker that exceeded its timeout is asked to fail and queued")
                x.check(x.implies(x.no(fire), x.all(w.target == t, not b.queue.has(w))), "a worker within its timeout is left alone")
            rows = db.rows("clusters") + db.rows("workers")
            for o, r in zip(cs + list(cs[0].workers.values()), rows):
                x.check(x.all(r["target"] == o.target, r["status"] == o.status), "the database records the same")
            x.reach("checked")
    run_coro(x, main)


@unit("submission", params=[{"kind": "cluster"}, {"kind": "worker"}], reach=["in_time", "late"])
def submission(x, kind):
    """a start that takes any time: it is cut off and failed exactly when it exceeds the start timeout"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            add_cluster(db, 1, "c1", J.CREATED if kind == "cluster" else J.RUNNING, J.RUNNING)
            add_worker(db, 1, "w1", 1, J.CREATED, J.RUNNING)
            took = x.time("duration", 0)
            ended = []

            async def start():
                await asyncio.sleep(took)
                ended.append(1)
                return [{"id": 7}]
            b = make_backend(x, db, lambda op, obj: start())
            hb_t, cs_t, ws_t = configure(x, b)
            c = b.db.get_cluster("c1")
            w = c.workers["w1"]
            if kind == "cluster":
                o, lim = c, cs_t
                await b.reconcile_cluster(c)
            else:
                o, lim = w, ws_t
                await b.reconcile_worker(w)
            x.assume(took != lim)
            x.observe("after", [o.status, o.target, b.queue.has(o)])
            x.check(o.status == J.SUBMITTED, "the start was attempted")
            if took < lim:
                x.check(x.all(o.target == J.RUNNING, bool(ended), o.state == {"id": 7}), "a start within the timeout succeeds")
                x.check(c.worker_start_failure_count == 0, "no failure is counted")
                x.reach("in_time")
            else:
                x.check(x.all(o.target == J.FAILED, not ended, b.queue.has(o)), "a start that exceeds the timeout is cut off, failed and queued")
                x.check(c.worker_start_failure_count == (1 if kind == "worker" else 0), "a worker start that timed out counts as one failure")
                x.reach("late")
    run_coro(x, main)
