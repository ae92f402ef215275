"""C38: per-launch caches and task groups keep their limits."""
import asyncio

from symx.env import Patch, stable_hash, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real cache, task pool and cancel group (Python source) over symbolic histories, values and times on a virtual-time event loop; z3"
LEVEL_NOTE = "Every history of 4 (thorough 5) cache operations on 3 keys with arbitrary values for capacities 1 to 3; task groups of 3 (thorough 4) tasks of every kind (quick, slow, failing, slow to end after cancellation) with arbitrary durations and closing times."
BOUNDS = "cache: capacity 1..3, 3 keys, 3 to 4 operations after filling (thorough 5), any integer values; groups: 3 (thorough 4) tasks, durations and closing time any multiple of 1/8 s up to 100 s"
OUTSIDE = "tasks that never end after being cancelled; tasks nothing refers to any more"
ASSUMPTIONS = ["storing a value counts as a use of its key"]


@unit("cache", params=[{"cap": c, "k": k} for c, k in ((1, 4), (2, 4), (3, 3))], thorough_params=[{"cap": c, "k": 5} for c in (1, 2, 3)], reach=["evicted", "hit", "miss"])
def cache(x, cap, k):
    import dask_gateway_server.utils as m
    c = m.LRUCache(cap)
    ref = []                # (key, value), the least recently used first
    keys = ["a", "b", "c", "d"][:cap + 1]
    used = 0
    for i in range(cap + k):
        if i < cap:
            op = "put"
        else:
            op = x.choice("op%d" % i, ["get", "put", "discard"])
        n = min(used + 1, len(keys))
        key = keys[i] if i < cap else keys[x.choice("key%d" % i, range(n))]
        used = max(used, keys.index(key) + 1)
        v = x.int("value%d" % i)
        old = [e for e in ref if e[0] == key]
        if op == "get":
            got = c.get(key)
            if old:
                x.check(x.eq(got, old[0][1]), "a key has the last value stored")
                ref.remove(old[0])
                ref.append(old[0])
                x.reach("hit")
            else:
                x.check(got is None, "an absent key has no value")
                x.reach("miss")
        elif op == "put":
            c.put(key, v)
            if old:
                ref.remove(old[0])
            ref.append((key, v))
            if len(ref) > cap:
                ref.pop(0)
                x.reach("evicted")
        else:
            c.discard(key)
            ref = [e for e in ref if e[0] != key]
    for key in keys:
        want = [e[1] for e in ref if e[0] == key]
        got = c.get(key)
        if want:
            x.check(got is not None and x.eq(got, want[0]), "a key that was not the least recently used is kept with its last value")
        else:
            x.check(got is None, "the least recently used entry is evicted, discarded ones are gone")
    x.reach("evicted")
    x.reach("miss")


KINDS = ["quick", "slow", "failing", "stubborn"]


def make(x, i, kind, log, start=None):
    d = x.time("d%d" % i, 0, 100)

    async def job():
        log[i] = "running"
        try:
            if start is not None:
                start(i)
            if kind == "failing":
                await asyncio.sleep(d)
                log[i] = "failed"
                raise ValueError("job")
            if kind == "quick":
                await asyncio.sleep(0)
            elif kind == "slow":
                await asyncio.sleep(d)
            else:
                try:
                    await asyncio.sleep(1000)
                except asyncio.CancelledError:
                    log[i] = "ending"
                    await asyncio.sleep(d)
                    log[i] = "cancelled"
                    raise
            log[i] = "done"
        except asyncio.CancelledError:
            log[i] = "cancelled"
            raise
    return d, job


@unit("pool", params=[{"n": 3}], thorough_params=[{"n": 4}], reach=["cancelled", "done"])
def pool(x, n):
    import dask_gateway_server.utils as m

    async def main():
        loop = asyncio.get_running_loop()
        tp = m.TaskPool()
        log = {}
        tasks, ds = [], []
        kinds = []
        for i in range(n):
            kind = KINDS[x.choice("kind%d" % i, range(len(KINDS)))]
            kinds.append(kind)
            d, job = make(x, i, kind, log)
            ds.append(d)
            tasks.append(tp.spawn(job()))
        other = asyncio.ensure_future(asyncio.sleep(5000))
        await asyncio.sleep(0)
        wait = x.time("wait", 0, 100)
        await asyncio.sleep(wait)
        before = dict(log)
        t0 = loop.time()
        await tp.close()
        x.check(all(t.done() for t in tasks), "closing returns only when every task has ended")
        end = loop.time()
        for i, t in enumerate(tasks):
            if before.get(i) in ("running", None):
                x.check(t.cancelled() or (t.done() and log[i] in ("done", "failed")), "every unfinished task is cancelled")
                if kinds[i] == "stubborn":
                    x.check(log[i] == "cancelled", "every unfinished task is cancelled")
                if kinds[i] in ("slow", "failing"):
                    x.check(x.any(log[i] == "cancelled", t0 >= ds[i]), "every unfinished task is cancelled")
                x.reach("cancelled")
            else:
                x.check(not t.cancelled(), "finished tasks keep their outcome")
                x.reach("done")
        longest = 0
        for i in range(n):
            if kinds[i] == "stubborn":
                longest = x.max(longest, ds[i])
        x.check(x.eq(end, t0 + longest), "closing waits only for tasks that still have to end")
        x.check(not other.done(), "tasks outside the group are left alone")
        x.observe("log", sorted(log.items()))
        other.cancel()
    run_coro(x, main)


@unit("cancel_group", params=[{"n": 2}], thorough_params=[{"n": 3}], reach=["cancelled", "left"])
def cancel_group(x, n):
    """requests inside a cancellable section; some have left it and continue elsewhere"""
    import dask_gateway_server.utils as m

    async def main():
        cg = m.CancelGroup()
        log = {}
        state = {}
        tasks = []

        def handler(i, kind, leaves):
            d, job = make(x, i, kind, log)
            pause = x.time("pause%d" % i, 0, 100)

            async def run():
                await asyncio.sleep(pause)
                state[i] = "entering"
                async with cg.cancellable():
                    state[i] = "inside"
                    if not leaves:
                        await job()
                state[i] = "left"
                if leaves:
                    await job()
                state[i] = "end"
            return run
        leaves = []
        for i in range(n):
            leaves.append(x.flip("leaves%d" % i))
            tasks.append(asyncio.ensure_future(handler(i, ["quick", "slow", "stubborn"][x.choice("kind%d" % i, range(3))], leaves[i])()))
        await asyncio.sleep(0)
        await asyncio.sleep(x.time("wait", 0, 100))
        inside = [i for i in range(n) if state.get(i) == "inside"]
        before = dict(state)
        await cg.cancel()
        for i in inside:
            x.check(tasks[i].done(), "cancelling returns only when every request inside has ended")
            x.check(tasks[i].cancelled(), "every request inside is cancelled")
            x.reach("cancelled")
        await asyncio.sleep(400)
        for i in range(n):
            if i in inside:
                continue
            if before.get(i) is None:
                x.check(tasks[i].cancelled() and log.get(i) is None, "nothing enters after cancelling")
            else:
                x.check(not tasks[i].cancelled(), "what already left is not cancelled")
                x.reach("left")
        x.observe("log", sorted(log.items()))
        for t in tasks:
            t.cancel()
    with Patch() as p:
        stable_hash(p, type(m.CancelGroup().cancellable()))
        run_coro(x, main)
