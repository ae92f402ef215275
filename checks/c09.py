"""C09: cluster and worker lifecycles only move forward and end for good."""
import asyncio

from dblib import VALID, Database, RecordingProxy, add_cluster, add_worker, cleanup, make_backend
from lifelib import Watch, hang, one_pass, outcome, pair_ok, worker_valid
from symx.env import Clock, unit
from symx.vloop import run_coro

TECHNIQUE = ("symbolic execution of the real reconciliation, heartbeat, timeout, check, stop and shutdown code (Python source); rely/guarantee: each activity runs from any valid "
             "records, any change allowed to the others happens at each of its suspensions, and z3 decides for every committed change that it is allowed")
LEVEL_NOTE = ("Inductive over histories: arbitrary valid records, every activity of the backend, arbitrary interference at every await, so any number of steps and any interleaving is covered; "
              "up to 2 (thorough 3) workers per cluster in one activity. Trusts the SQL model (replays use SQLite) and that the queue never runs one item twice at once (C16).")
BOUNDS = "per activity: 1 cluster with 0..2 workers (thorough 3), at most 1 state update per start, one failure per job operation; number of activities and interleavings unbounded"
OUTSIDE = "database failures in the middle of an activity (C12); backends that override the base reconciliation (Kubernetes: C26, C27)"
ASSUMPTIONS = ["the work queue never hands out an item that is being processed (C16)", "interference keeps the guarantee each activity is checked for",
               "a relational model replaces SQLAlchemy's execution (replays use SQLite)"]
replay_cleanup = cleanup

NAMES = {1: "CREATED", 2: "SUBMITTED", 3: "RUNNING", 4: "CLOSING", 5: "STOPPED", 6: "FAILED"}


class Proxy(RecordingProxy):
    hook = None

    async def add_route(self, **kw):
        if self.hook is not None:
            self.hook("add_route")
        await super().add_route(**kw)

    async def cleanup(self):
        pass

    async def remove_route(self, **kw):
        if self.hook is not None:
            self.hook("remove_route")
        await super().remove_route(**kw)


def records(x, db, J, n, cpairs, bulk, count=True):
    """arbitrary valid records: one cluster in one of cpairs, n workers"""
    cs, ct = x.enum("cstatus", J), x.enum("ctarget", J)
    x.assume(pair_ok(x, cpairs, cs, ct))
    add_cluster(db, 1, "c1", cs, ct, count=x.int("count", 0, 2) if count else 0, scheduler_address="tls://s:1" if x.flip("has_address") else "")
    st = []
    for i in range(n):
        s, t = x.enum("w%d.status" % i, J), x.enum("w%d.target" % i, J)
        x.assume(pair_ok(x, worker_valid(J), s, t))
        if not bulk:
            x.assume(x.all(s != J.CLOSING, t != J.CLOSING))
        add_worker(db, i + 1, "w%d" % (i + 1), 1, s, t, close_expected=x.int("w%d.expected" % i, 0, 1))
        st.append((s, t))
    # a closing cluster has asked its workers to stop
    lim = J.CLOSING if bulk else J.STOPPED
    x.assume(x.implies(cs == J.CLOSING, x.all(*[t >= lim for s, t in st])))
    # a finished cluster has only finished workers
    x.assume(x.implies(cs >= J.STOPPED, x.all(*[s >= J.STOPPED for s, t in st])))
    return cs, ct, st


def backend(x, db, bulk, script, **kw):
    b = make_backend(x, db, script, **kw)
    b.supports_bulk_shutdown = bulk
    b.proxy = Proxy(x)
    return b


def pairs_of(J, key):
    return [p for p in VALID(J) if p[0].name == key]


def live(x, J, b, c, bulk, exclude=None):
    """an unfinished cluster that is to end is queued, or waits for a worker that is queued"""
    waits = [x.all(w.status < (J.CLOSING if bulk else J.STOPPED), w.target >= (J.CLOSING if bulk else J.STOPPED)) for w in c.workers.values() if b.queue.has(w) or w in exclude]
    return x.any(c.status >= J.STOPPED, c.target < J.STOPPED, b.queue.has(c), *waits)


STATES = ["CREATED", "SUBMITTED", "RUNNING", "CLOSING", "STOPPED", "FAILED"]


@unit("reconcile_cluster", params=[{"state": s, "n": n, "bulk": k} for s in STATES for n in ((0, 1) if s in ("CREATED", "SUBMITTED") else (0, 1, 2)) for k in (False, True)],
      thorough_params=[{"state": s, "n": 3, "bulk": k} for s in ("RUNNING", "CLOSING") for k in (False, True)])
def reconcile_cluster(x, state, n, bulk):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            cs, ct, ws0 = records(x, db, J, n, pairs_of(J, state), bulk)
            stopped = []

            async def start():
                o = outcome(x, "start")
                w.others("during_start", cluster=c)
                if o == "error":
                    raise RuntimeError("start failed")
                if o == "hangs":
                    await hang()
                return [{"id": 1}] if x.flip("state_update") else []

            async def stop():
                w.others("during_stop", cluster=c)
                stopped.append(c)
                if x.flip("stop_fails"):
                    raise RuntimeError("stop failed")

            def script(op, obj):
                return start() if op == "start_cluster" else stop()
            b = backend(x, db, bulk, script)
            w = Watch(x, m, b)
            c = b.db.get_cluster("c1")
            workers = list(c.workers.values())
            # workers whose end was already requested are queued (each request queues them: checked below and in the other units)
            queued0 = list(workers)
            b.proxy.hook = lambda op: w.others(op, cluster=c, worker=workers[0] if workers and op == "add_route" else None)
            c.worker_start_failure_count = x.int("failures", 0)
            finished = []

            def finish(cl, old, new):
                done = new[0] >= J.STOPPED
                if done:
                    finished.append(cl)
                    x.check(new[0] == new[1], "a finished cluster records the outcome that was requested")
                    x.check(x.all(*[x.any(k.status >= J.STOPPED, False) for k in cl.workers.values()]), "a cluster finishes only after its workers did")
                    x.check(len(stopped) == 1, "a cluster finishes only after its job was asked to stop")
                    x.check(x.all(("remove", "PATH", None, "/clusters/c1") in b.proxy.calls, ("remove", "SNI", "c1", None) in b.proxy.calls),
                            "a cluster finishes only after its routes were removed")
            w.finish = finish
            await b.reconcile_cluster(c)
            w.compare()
            x.observe("cluster", [c.status, c.target])
            x.observe("workers", [[k.status, k.target] for k in c.workers.values()])
            x.observe("calls", [op for op, _ in b.calls] + [k[:2] for k in b.proxy.calls])
            done = c.status >= J.STOPPED
            if done:
                x.check(x.all(c.ready.is_set(), c.shutdown.is_set()), "a finished cluster has released its waiters")
                x.check(x.implies(cs < J.STOPPED, c.stop_time == 1000000), "a finished cluster records when it stopped")
                x.reach("finished")
            else:
                x.check(x.implies(c.status >= J.RUNNING, c.ready.is_set()), "a cluster that runs or closes has released its waiters")
                x.check(not c.shutdown.is_set(), "an unfinished cluster has not announced its shutdown")
                # the request that interference made queued the cluster itself
                interfered = x.no(c.target == ct) if ct < J.STOPPED else False
                ends = x.any(c.target < J.STOPPED, interfered, live(x, J, b, c, bulk, queued0))
                x.check(ends, "a cluster that is to end stays queued or waits for a queued worker")
                if c.status == J.CLOSING:
                    lim = J.CLOSING if bulk else J.STOPPED
                    x.check(x.all(*[k.target >= lim for k in c.workers.values()]), "a closing cluster has asked all its workers to stop")
                    x.reach("closing")
    run_coro(x, main)


@unit("reconcile_worker", params=[{"state": s, "cluster": c, "bulk": k} for s in STATES for c in ("RUNNING", "CLOSING") for k in (False, True) if s != "CLOSING" or k])
def reconcile_worker(x, state, cluster, bulk):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            cs, ct = J[cluster], x.enum("ctarget", J)
            x.assume(pair_ok(x, VALID(J), cs, ct))
            add_cluster(db, 1, "c1", cs, ct)
            st = J[state]
            tg = x.enum("target", J)
            x.assume(pair_ok(x, worker_valid(J), st, tg))
            if not bulk:
                x.assume(tg != J.CLOSING)
            if cs == J.CLOSING:
                x.assume(tg >= (J.CLOSING if bulk else J.STOPPED))
            add_worker(db, 1, "w1", 1, st, tg, close_expected=x.int("expected", 0, 1))
            s2, t2 = x.enum("w2.status", J), x.enum("w2.target", J)
            x.assume(pair_ok(x, worker_valid(J), s2, t2))
            if not bulk:
                x.assume(x.all(s2 != J.CLOSING, t2 != J.CLOSING))
            add_worker(db, 2, "w2", 1, s2, t2)
            ops = []

            async def run(op):
                ops.append(op)
                o = outcome(x, op)
                w.others("during_" + op, cluster=c, worker=wk, reconciling=wk)
                if o == "error":
                    raise RuntimeError("failed")
                if o == "hangs" and op == "start_worker":
                    await hang()
                return [{"id": 1}] if o == "ok" and op == "start_worker" else None
            b = backend(x, db, bulk, lambda op, obj: run(op))
            w = Watch(x, m, b)
            c = b.db.get_cluster("c1")
            wk, w2 = c.workers["w1"], c.workers["w2"]
            await b.reconcile_worker(wk)
            w.compare()
            x.observe("worker", [wk.status, wk.target])
            x.observe("calls", ops)
            x.observe("queue", [b.queue.has(c), b.queue.has(wk)])
            if wk.status >= J.STOPPED and not st >= J.STOPPED:
                x.check(wk.status == wk.target, "a finished worker records the outcome that was requested")
                x.check(x.implies(x.any(st > J.CREATED), "stop_worker" in ops), "a submitted worker finishes only after its job was asked to stop")
                x.reach("finished")
            lim = J.CLOSING if bulk else J.STOPPED
            if cs == J.CLOSING and not st >= J.STOPPED:
                x.check(x.implies(x.all(wk.status >= lim, w2.status >= lim), x.any(b.queue.has(c))), "the last worker of a closing cluster queues the cluster")
            if "start_worker" in ops and not (wk.status >= J.STOPPED):
                # own failure asks for the stop, then it has to be queued for it
                x.check(x.implies(x.all(wk.target == J.FAILED, wk.status >= J.SUBMITTED), x.any(b.queue.has(wk), c.worker_start_failure_count == 0)),
                        "a worker that failed to start is queued to be stopped")
    run_coro(x, main)


@unit("check_loop", params=[{"kind": k, "n": n} for k in ("clusters", "workers") for n in (1, 2)])
def check_loop(x, kind, n):
    """the periodic check: between asking the backend and its answer anything may happen"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            cs, ct, st = records(x, db, J, n if kind == "workers" else 0, VALID(J) if kind == "clusters" or n == 1 else [(J.RUNNING, J.RUNNING)], False)
            if kind == "clusters" and n == 2:
                add_cluster(db, 2, "c2", J.SUBMITTED, J.RUNNING)
            async def answer(objs):
                res = []
                for i, o in enumerate(objs):
                    if kind == "clusters":
                        w.others("c%d" % i, cluster=o)
                        w.env = True
                        s = x.enum("c%d.status_after" % i, J)
                        x.assume(x.all(s >= o.status, pair_ok(x, VALID(J), s, o.target)))
                        b.db.update_cluster(o, status=s)
                        w.snap()
                        w.env = False
                    else:
                        w.others("w%d" % i, worker=o)
                    res.append(x.bool("ok%d" % i))
                asked.extend(objs)
                before.extend((o.status, o.target) for o in objs)
                verdicts.extend(res)
                return res
            asked, before, verdicts = [], [], []
            b = backend(x, db, False, lambda op, obj: answer(obj))
            w = Watch(x, m, b)
            c = b.db.get_cluster("c1")
            await one_pass(b.check_clusters_loop() if kind == "clusters" else b.check_workers_loop(), 30)
            w.compare()
            x.observe("asked", len(asked))
            x.observe("after", [[o.status, o.target] for o in asked])
            for o, (s, t), ok in zip(asked, before, verdicts):
                changed = o.target != t
                x.check(x.implies(ok, x.no(changed)), "what the backend reports alive is left alone")
                x.check(x.implies(x.all(x.no(ok), t == J.RUNNING, s == J.SUBMITTED), x.all(o.target == J.FAILED, b.queue.has(o))), "what the backend reports dead is asked to stop as failed and queued")
                x.check(x.implies(changed, b.queue.has(o)), "what is asked to stop is queued")
            if kind == "workers":
                sure = [x.all(x.no(ok), t == J.RUNNING, s == J.SUBMITTED) for (s, t), ok in zip(before, verdicts)]
                may = [x.all(x.no(ok), t == J.RUNNING) for (s, t), ok in zip(before, verdicts)]
                x.check(x.all(c.worker_start_failure_count >= x.count(sure), c.worker_start_failure_count <= x.count(may)), "each failed start counts as one failure")
            x.reach("checked")
    run_coro(x, main)


@unit("timeouts", params=[{"n": 0}, {"n": 1}, {"n": 2}])
def timeouts(x, n):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    now = x.int("now_ms", 0)
    Clock.wall = lambda: now / 1000

    async def main():
        with Database(x) as db:
            cs, ct, st = records(x, db, J, n, VALID(J), True, count=False)
            b = backend(x, db, True, None)
            w = Watch(x, m, b)
            c = b.db.get_cluster("c1")
            if cs == J.RUNNING:
                c.last_heartbeat = x.int("last_heartbeat", 0)
            await one_pass(b.check_timeouts_loop(), 20)
            w.compare()
            x.check(x.implies(c.target != ct, x.all(c.target == J.FAILED, b.queue.has(c))), "a timed out cluster is queued to stop as failed")
            for k, (s, t) in zip(c.workers.values(), st):
                x.check(x.implies(k.target != t, x.all(k.target == J.FAILED, b.queue.has(k))), "a timed out worker is queued to stop as failed")
            x.observe("after", [[c.status, c.target]] + [[k.status, k.target] for k in c.workers.values()])
    run_coro(x, main)


@unit("stop", reach=["stopped", "already"])
def stop(x):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus

    async def main():
        with Database(x) as db:
            cs, ct, st = records(x, db, J, 0, VALID(J), False)
            b = backend(x, db, False, None)
            w = Watch(x, m, b)
            c = b.db.get_cluster("c1")
            failed = x.flip("failed")
            await b.stop_cluster("c1", failed=failed)
            w.compare()
            x.observe("after", [c.status, c.target])
            x.check(c.status == cs, "a stop request does not change the stage")
            if ct < J.STOPPED:
                x.check(x.all(c.target == (J.FAILED if failed else J.STOPPED), b.queue.has(c)), "a stop request is recorded and queued")
                x.reach("stopped")
            else:
                x.check(c.target == ct, "a second stop request changes nothing")
                x.reach("already")
            await b.stop_cluster("unknown")
    run_coro(x, main)


@unit("heartbeat", params=[{"n": 1, "first": None}] + [{"n": 2, "first": f} for f in ("absent", "active", "closing", "closed")])
def heartbeat(x, n, first):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            bulk = x.flip("bulk") if n == 1 else True
            cs, ct, st = records(x, db, J, n, VALID(J) if n == 1 else [(J.RUNNING, J.RUNNING)], bulk, count=False)
            b = backend(x, db, bulk, None)
            msg = {"count": x.int("new_count", 0), "active_workers": [], "closing_workers": [], "closed_workers": [], "api_address": "a",
                   "scheduler_address": "s", "dashboard_address": ""}
            for i in range(n):
                k = first if i == 0 and first else x.choice("w%d.report" % i, ["absent", "active", "closing", "closed"])
                if k != "absent":
                    msg[k + "_workers"].append("w%d" % (i + 1))
                else:
                    x.assume(x.any(st[i][0] <= J.SUBMITTED, st[i][1] >= J.STOPPED))
            w = Watch(x, m, b)
            c = b.db.get_cluster("c1")
            await b.on_cluster_heartbeat("c1", msg)
            w.compare()
            x.observe("after", [[c.status, c.target]] + [[k.status, k.target] for k in c.workers.values()])
            for k, (s, t) in zip(c.workers.values(), st):
                x.check(x.implies(x.all(k.target >= J.STOPPED, t < J.STOPPED), b.queue.has(k)), "a worker asked to stop is queued")
    run_coro(x, main)


@unit("shutdown", reach=["waited"])
def shutdown(x):
    """the end of the gateway process: every active cluster is failed, and the shutdown waits for all of them"""
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0

    async def main():
        with Database(x) as db:
            pairs = VALID(J)
            st = []
            for i in range(2):
                s, t = x.enum("c%d.status" % i, J), x.enum("c%d.target" % i, J)
                x.assume(pair_ok(x, pairs, s, t))
                add_cluster(db, i + 1, "c%d" % (i + 1), s, t)
                st.append((s, t))
            b = backend(x, db, False, None, stop_clusters_on_shutdown=True)
            w = Watch(x, m, b)
            cs = [b.db.get_cluster("c%d" % (i + 1)) for i in range(2)]
            b.session = None

            class S:
                async def close(self):
                    pass
            b.session = S()
            t = asyncio.ensure_future(b.cleanup())
            for _ in range(6):
                await asyncio.sleep(0)
            for c, (s, tg) in zip(cs, st):
                x.check(x.implies(tg < J.STOPPED, x.all(c.target == J.FAILED, b.queue.has(c))), "shutdown asks every active cluster to stop and queues it")
                x.check(x.implies(tg >= J.STOPPED, c.target == tg), "shutdown leaves clusters alone that are already asked to stop")
            waiting = not t.done()
            x.check(x.iff(waiting, x.any(*[s < J.STOPPED for s, tg in st])), "shutdown waits while a cluster is unfinished")
            if waiting:
                x.reach("waited")
                for c in cs:
                    if not c.shutdown.is_set():
                        x.check(not t.done(), "shutdown waits for the last cluster")
                        c.shutdown.set()
                        for _ in range(6):
                            await asyncio.sleep(0)
            w.compare()
            t.cancel()
            try:
                await t
            except (asyncio.CancelledError, Exception):
                pass
    run_coro(x, main)
