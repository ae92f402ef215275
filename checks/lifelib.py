"""The guarantee every atomic step on cluster and worker records has to keep (C09), and the
effects other activities may have while one is suspended (rely)."""
import asyncio

from dblib import VALID


def worker_valid(J):
    """(status, target) pairs a worker record can have"""
    out = []
    for s in (J.CREATED, J.SUBMITTED, J.RUNNING):
        out += [(s, J.RUNNING), (s, J.CLOSING), (s, J.STOPPED), (s, J.FAILED)]
    return out + [(J.CLOSING, J.CLOSING), (J.CLOSING, J.STOPPED), (J.CLOSING, J.FAILED), (J.STOPPED, J.STOPPED), (J.FAILED, J.FAILED)]


def pair_ok(x, pairs, s, t):
    return x.any(*[x.all(s == a, t == b) for a, b in pairs])


def advance_ok(x, J, old, new, pairs):
    """old and new are (status, target)"""
    s0, t0 = old
    s1, t1 = new
    fin = s0 >= J.STOPPED
    return x.all(
        x.implies(fin, x.all(s1 == s0, t1 == t0)),
        x.implies(x.no(fin), s1 >= s0),
        x.implies(t0 >= J.CLOSING, t1 >= J.CLOSING),
        x.implies(t0 >= J.STOPPED, t1 >= J.STOPPED),
        pair_ok(x, pairs, s1, t1))


class Watch:
    """checks every change of the records made through the data manager"""
    def __init__(self, x, m, b):
        self.x, self.J, self.m, self.b = x, m.JobStatus, m, b
        self.cp, self.wp = VALID(self.J), worker_valid(self.J)
        self.env = False
        self.finish = None        # called when a cluster becomes finished
        self.snap()
        for name in dir(type(b.db)):
            if name.startswith(("_", "get", "list", "active", "encode", "decode", "encrypt", "decrypt")):
                continue
            f = getattr(b.db, name)
            if callable(f):
                setattr(b.db, name, self.wrap(f))

    def wrap(self, f):
        def g(*a, **kw):
            if self.env:
                return f(*a, **kw)
            try:
                return f(*a, **kw)
            finally:
                self.compare()
        return g

    def objs(self):
        cs = list(self.b.db.id_to_cluster.values())
        return cs, [w for c in cs for w in c.workers.values()]

    def snap(self):
        cs, ws = self.objs()
        self.c0 = [(c, (c.status, c.target)) for c in cs]
        self.w0 = [(w, (w.status, w.target, w.close_expected)) for w in ws]

    def compare(self):
        x, J = self.x, self.J
        cs, ws = self.objs()
        for c, old in self.c0:
            new = (c.status, c.target)
            if new[0] is old[0] and new[1] is old[1]:
                continue
            x.check(advance_ok(x, J, old, new, self.cp), "a cluster record only moves forward", info=(old, new))
            if self.finish is not None and new[0] is not old[0]:
                self.finish(c, old, new)
        for w, old in self.w0:
            new = (w.status, w.target)
            if new[0] is old[0] and new[1] is old[1]:
                continue
            x.check(advance_ok(x, J, old[:2], new, self.wp), "a worker record only moves forward", info=(old, new))
        known = [w for w, _ in self.w0]
        for w in ws:
            if not any(w is k for k in known):
                x.check(x.all(w.status == J.CREATED, w.target == J.RUNNING), "a new worker starts as created")
        self.snap()

    # -- what other activities may do meanwhile
    def others(self, what, cluster=None, worker=None, reconciling_cluster=False, reconciling=None):
        """Apply to cluster/worker any change which activities other than its own reconciliation may make."""
        x, J = self.x, self.J
        self.env = True
        try:
            if cluster is not None:
                t = x.enum(what + ".ctarget", J, [J.RUNNING, J.CLOSING, J.STOPPED, J.FAILED])
                x.assume(t != J.CLOSING)
                s0, t0 = cluster.status, cluster.target
                x.assume(x.ite(x.all(s0 < J.STOPPED, t0 == J.RUNNING), True, t == t0))
                self.b.db.update_cluster(cluster, target=t)
            if worker is not None:
                s = x.enum(what + ".wstatus", J)
                t = x.enum(what + ".wtarget", J)
                s0, t0 = worker.status, worker.target
                x.assume(advance_ok(x, J, (s0, t0), (s, t), self.wp))
                if reconciling is worker:
                    # a heartbeat can report it running; only its own reconciliation finishes or closes it
                    x.assume(x.any(s == s0, x.all(s0 < J.RUNNING, s == J.RUNNING)))
                if not self.b.supports_bulk_shutdown:
                    x.assume(x.all(s != J.CLOSING, t != J.CLOSING))
                x.assume(x.any(t == J.RUNNING, t >= J.CLOSING))
                self.b.db.update_worker(worker, status=s, target=t, close_expected=x.ite(x.bool(what + ".expected"), 1, worker.close_expected))
            self.snap()
        finally:
            self.env = False


def outcome(x, name):
    return x.choice(name, ["ok", "error", "hangs"])


async def hang():
    await asyncio.get_running_loop().create_future()


async def one_pass(coro, period):
    """one pass of a periodic loop of the backend which sleeps for `period` first"""
    t = asyncio.ensure_future(coro)
    await asyncio.sleep(period * 1.5)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
