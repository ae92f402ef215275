"""C08: heartbeats update cluster and worker records exactly as reported."""
from dblib import Database, add_cluster, add_worker, cleanup, make_backend
from symx.env import Clock, sync, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real heartbeat handler over the real data manager (Python source) and a relational model of the SQL it issues; z3"
LEVEL_NOTE = ("Inductive in the records: any status and target of the cluster and of each of up to 2 (thorough: 3) workers, any membership of each worker "
              "in the report, unbounded counts and limits; trusts the SQL model, which replays on real SQLite.")
BOUNDS = ("one heartbeat; any cluster status/target without workers, submitted or running cluster with 1..2 workers (thorough 3) in any status/target and any place in the report, "
          "plus 0..1 unknown worker names in the report; counts and limits unbounded integers")
OUTSIDE = "heartbeats whose fields have other types than the scheduler plugin sends"
ASSUMPTIONS = ["a relational model of INSERT/UPDATE/DELETE/SELECT replaces SQLAlchemy's execution (replays use SQLite)"]
replay_cleanup = cleanup


def members(J, pred):
    return [m for m in J if pred(m)]


REPORTS = ["absent", "active", "closing", "closed"]


@unit("heartbeat", params=[{"n": 0, "first": None}] + [{"n": 1, "first": r} for r in REPORTS] + [{"n": 2, "first": r + "/" + q} for r in REPORTS for q in REPORTS],
      thorough_params=[{"n": 3, "first": r + "/" + q} for r in REPORTS for q in REPORTS], reach=["applied"])
def heartbeat(x, n, first):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    now = x.int("now_ms", 0)
    Clock.wall = lambda: now / 1000

    async def main():
        with Database(x) as db:
            # the combinations of cluster state and limit are split over the units
            limit_kind = x.choice("limit_kind", ["absent", "none", "int"]) if n == 0 else "int"
            cfg = {} if limit_kind == "absent" else {"cluster_max_workers": None if limit_kind == "none" else x.int("limit", 0)}
            limit = cfg.get("cluster_max_workers")
            cstatus = x.enum("cstatus", J, list(J) if n == 0 else [J.SUBMITTED, J.RUNNING])
            ctarget = x.enum("ctarget", J, list(J) if n == 0 else [J.RUNNING])
            count0 = x.int("count0", 0)
            add_cluster(db, 1, "c1", cstatus, ctarget, config=cfg, count=count0, scheduler_address="old-s", dashboard_address="old-d", api_address="old-a")
            st, tg, exp, where = [], [], [], []
            for i in range(n):
                st.append(x.enum("w%d.status" % i, J))
                tg.append(x.enum("w%d.target" % i, J))
                exp.append(x.int("w%d.expected" % i, 0, 1))
                fixed = (first or "").split("/")
                where.append(fixed[i] if i < len(fixed) else x.choice("w%d.report" % i, REPORTS))
                # reachable records: a worker only leaves the report's lists before it ever ran, or is created/submitted when unlisted
                x.assume(x.implies(st[i] >= J.STOPPED, tg[i] == st[i]))
                if where[i] == "absent":
                    # the scheduler lists each worker it knows until its departure was reported, so an
                    # unlisted worker is finished, being stopped, or has not connected yet
                    x.assume(x.any(st[i] <= J.SUBMITTED, tg[i] >= J.STOPPED))
                add_worker(db, i + 1, "w%d" % (i + 1), 1, st[i], tg[i], close_expected=exp[i])
            b = make_backend(x, db)
            c = b.db.get_cluster("c1")
            ws = [c.workers["w%d" % (i + 1)] for i in range(n)]
            failures = x.int("failures", 0)
            c.worker_start_failure_count = failures
            before_hb = c.last_heartbeat
            msg = {"count": x.int("count", 0), "active_workers": [], "closing_workers": [], "closed_workers": [],
                   "api_address": "new-a", "scheduler_address": "new-s", "dashboard_address": "new-d"}
            for i in range(n):
                if where[i] != "absent":
                    msg[where[i] + "_workers"].append("w%d" % (i + 1))
            extra = x.choice("unknown_active", [0, 1]) if n < 2 else 0
            if extra:
                msg["active_workers"].append("stranger")
            n_active = len(msg["active_workers"])
            await b.on_cluster_heartbeat("c1", msg)
            row = db.rows("clusters")[0]
            rows = db.rows("workers")
            x.observe("cluster", [row["status"], row["target"], row["count"], row["scheduler_address"]])
            x.observe("workers", [[r["status"], r["target"], r["close_expected"] == 1] for r in rows])
            x.observe("queued", len(b.queue.items))
            # memory and database agree
            x.check(x.all(row["status"] == c.status, row["target"] == c.target, row["count"] == c.count, row["scheduler_address"] == c.scheduler_address,
                          *[x.all(r["status"] == w.status, r["target"] == w.target, r["close_expected"] == w.close_expected) for r, w in zip(rows, ws)]),
                    "memory equals the database")
            x.check(x.all(c.status == cstatus, c.target == ctarget), "the cluster's status and target are unchanged")
            if ctarget > J.RUNNING:
                x.check(x.all(c.count == count0, c.scheduler_address == "old-s", len(b.queue.items) == 0,
                              *[x.all(w.status == st[i], w.target == tg[i], w.close_expected == exp[i]) for i, w in enumerate(ws)]),
                        "no effect on a cluster asked to stop")
                return
            x.reach("applied")
            x.check(c.last_heartbeat == now, "the time of the heartbeat is recorded")
            count = msg["count"]
            want = x.min(count, limit) if limit is not None else count
            x.check(c.count == want, "the desired count is the reported count capped at the limit")
            running = cstatus == J.RUNNING
            x.check(x.implies(running, x.all(c.scheduler_address == "old-s", c.dashboard_address == "old-d", c.api_address == "old-a")),
                    "addresses are kept while running")
            x.check(x.implies(x.no(running), x.all(c.scheduler_address == "new-s", c.dashboard_address == "new-d", c.api_address == "new-a")),
                    "addresses are recorded before running")
            x.check(x.implies(x.any(x.no(running), want != count0), b.queue.has(c)), "a changed cluster is queued")
            pending, stopped_c, stopped_s = [], [], []
            for i, w in enumerate(ws):
                fin = st[i] >= J.STOPPED
                same = x.all(w.status == st[i], w.target == tg[i], w.close_expected == exp[i])
                x.check(x.implies(fin, same), "a finished worker is unchanged")
                live = x.no(fin)
                if where[i] in ("active", "closing"):
                    x.check(x.implies(live, w.status == x.ite(st[i] < J.RUNNING, J.RUNNING, st[i])), "a reported worker that was pending is running")
                    x.check(x.implies(live, w.target == tg[i]), "a reported worker's target is unchanged")
                    x.check(x.implies(live, x.any(w.close_expected == 1, False) if where[i] == "closing" else w.close_expected == exp[i]), "a closing worker's close becomes expected")
                    x.check(x.implies(x.all(live, st[i] < J.RUNNING), c.worker_start_failure_count == 0), "a started worker resets the failure count")
                elif where[i] == "closed":
                    x.check(x.implies(live, x.all(w.status == st[i], w.target == x.ite(exp[i] == 1, J.STOPPED, J.FAILED))),
                            "a closed worker is stopped if expected, otherwise failed")
                    x.check(x.implies(live, b.queue.has(w)), "a closed worker is queued")
                else:
                    # pending worker: possibly surplus
                    x.check(x.implies(live, w.status == st[i]), "an unreported worker keeps its status")
                    x.check(x.implies(live, x.any(w.target == tg[i], w.target == J.STOPPED)), "an unreported worker is left alone or stopped")
                    changed = x.all(live, w.target == J.STOPPED, tg[i] < J.STOPPED)
                    x.check(x.implies(changed, b.queue.has(w)), "a worker that is asked to stop is queued")
                    # a stop that is already under way keeps its kind
                    x.check(x.implies(x.all(live, tg[i] >= J.STOPPED), w.target == tg[i]), "a worker already asked to stop is left alone")
                    pending.append((x.all(live, tg[i] < J.STOPPED), changed, st[i] == J.CREATED))
            n_pend = x.count([p for p, _, _ in pending])
            n_stop = x.count([ch for _, ch, _ in pending])
            surplus = n_active + n_pend - want
            x.check(x.implies(surplus <= 0, n_stop == 0), "no pending worker is stopped without surplus")
            x.check(n_stop <= x.max(surplus, 0), "at most the surplus of pending workers is stopped")
            x.check(x.implies(surplus > 0, n_stop == x.min(surplus, n_pend)), "the surplus of pending workers is stopped")
            for p, ch, created in pending:
                # a submitted worker is stopped only if every created one is
                x.check(x.implies(x.all(ch, x.no(created)), x.all(*[x.implies(x.all(p2, cr2), ch2) for p2, ch2, cr2 in pending])),
                        "workers not yet submitted are stopped first")
            started = x.any(*[x.all(st[i] < J.RUNNING) for i in range(n) if where[i] in ("active", "closing")]) if any(k in ("active", "closing") for k in where) else False
            x.check(x.implies(x.no(started), c.worker_start_failure_count == failures), "otherwise the failure count is unchanged")
    run_coro(x, main)


@unit("unknown", reach=["ignored"])
def unknown(x):
    async def main():
        with Database(x) as db:
            import dask_gateway_server.backends.db_base as m
            add_cluster(db, 1, "c1", m.JobStatus.RUNNING, m.JobStatus.RUNNING)
            b = make_backend(x, db)
            await b.on_cluster_heartbeat("c2", {"count": x.int("count", 0), "active_workers": [], "closing_workers": [], "closed_workers": [],
                                                "api_address": "a", "scheduler_address": "s", "dashboard_address": "d"})
            x.check(len(b.queue.items) == 0 and db.rows("clusters")[0]["count"] == 0, "no effect for an unknown cluster")
            x.reach("ignored")
    run_coro(x, main)
