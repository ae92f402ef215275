"""C14: expiry removes exactly the old finished clusters."""
from dblib import VALID, Database, add_cluster, add_worker, cleanup, make_backend, same_as_committed
from lifelib import pair_ok
from symx.env import Clock, Uuid, UuidSeq, set_traits, unit
from symx.vloop import run_coro
import asyncio

TECHNIQUE = "symbolic execution of the real expiry (Python source) over a relational model of the database; z3 over all times, stages and owners"
LEVEL_NOTE = "Arbitrary current time, maximum age (multiples of 1/8 s), stop times (unbounded milliseconds), stages and owners of 2-3 clusters with one worker each; through the periodic clean-up and directly."
BOUNDS = "2 clusters and two clean-ups at different times, or 3 clusters and one (thorough: 3 and two); one worker each, every pattern of common owners"
OUTSIDE = "cluster counts above 3 (each record is treated independently)"
ASSUMPTIONS = ["a relational model replaces SQLAlchemy's execution (replays use SQLite)"]
replay_cleanup = cleanup


@unit("expire", params=[{"how": h, "users": u, "rounds": r} for h, u, r in (("direct", "aa", 2), ("direct", "ab", 2), ("loop", "aa", 2), ("direct", "aab", 1))],
      thorough_params=[{"how": h, "users": u, "rounds": 2} for h in ("direct", "loop") for u in ("aaa", "aab", "abc")], reach=["some", "none"])
def expire(x, how, users, rounds):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    now = [x.int("now_ms", 0)]
    Clock.wall = lambda: now[0] / 1000
    Uuid.fn = UuidSeq()

    async def main():
        with Database(x) as db:
            cl = []
            for i, u in enumerate(users):
                s, t = x.enum("c%d.status" % i, J), x.enum("c%d.target" % i, J)
                x.assume(pair_ok(x, VALID(J), s, t))
                stop = x.int("c%d.stop" % i, 0) if x.flip("c%d.stopped" % i) else None
                x.assume(s >= J.STOPPED if stop is not None else s < J.STOPPED)
                add_cluster(db, i + 1, "c%d" % i, s, t, username=u, stop_time=stop)
                add_worker(db, i + 1, "w%d" % i, i + 1, J.STOPPED if stop is not None else J.RUNNING, J.STOPPED if stop is not None else J.RUNNING)
                cl.append((u, s, stop))
            b = make_backend(x, db)
            age = x.time("max_age", 0)
            set_traits(b, db_cluster_max_age=age, db_cleanup_period=600.0)
            left = list(range(len(cl)))
            for rnd in range(rounds):
                cut = now[0] - age * 1000
                if how == "direct":
                    n = b.db.cleanup_expired(age)
                else:
                    t = asyncio.ensure_future(b.cleanup_db_loop())
                    await asyncio.sleep(1)
                    t.cancel()
                    n = None
                gone = []
                ids = [r["id"] for r in db.rows("clusters")]
                wids = [r["cluster_id"] for r in db.rows("workers")]
                for i in list(left):
                    u, s, stop = cl[i]
                    old = stop is not None and stop < cut
                    in_db = (i + 1) in ids
                    x.check(x.iff(in_db, x.no(old)), "a record is removed exactly when its cluster stopped longer ago than the maximum age")
                    x.check(((i + 1) in wids) == in_db, "its workers' records go with it")
                    c = b.db.get_cluster("c%d" % i)
                    x.check((c is not None) == in_db, "a cluster is retrievable by name exactly if its record is kept")
                    if not in_db:
                        gone.append(i)
                        left.remove(i)
                    elif c is not None:
                        x.check(c.id == i + 1 and c.username == u and list(c.workers) == ["w%d" % i], "the record kept is the cluster's")
                if n is not None:
                    x.check(n == len(gone), "the number removed is reported")
                for u in set(users):
                    mine = b.db.list_clusters(username=u, statuses=None if rnd else list(m.models.ClusterStatus))
                    want = [i for i in left if cl[i][0] == u]
                    if rnd:
                        for i in want:
                            x.check((("c%d" % i) in [c.name for c in mine]) == bool(b.db.get_cluster("c%d" % i).is_active()), "active clusters stay listed")
                    else:
                        x.check(sorted(c.name for c in mine) == ["c%d" % i for i in want], "a user's clusters are exactly the ones kept")
                x.check(sorted(c.name for c in b.db.list_clusters(statuses=list(m.models.ClusterStatus))) == ["c%d" % i for i in left], "all clusters listed are exactly the ones kept")
                x.check(same_as_committed(x, db, b.db), "memory and database agree")
                x.observe("left", list(left))
                x.reach("some" if gone else "none")
                now[0] = now[0] + x.int("later_ms", 0)
            w = b.db.create_worker(b.db.get_cluster("c%d" % left[0])) if left else None
    run_coro(x, main)
