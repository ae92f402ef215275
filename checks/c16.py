"""C16: the reconciliation queue loses nothing and never runs an item twice at once."""
import asyncio

from symx.env import unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real work queue on a virtual-time event loop (Python source); z3 over delays, processing times, put times and the histories of operations"
LEVEL_NOTE = "Every history of 5 (thorough 6) operations by producers, consumers, cancellations and closing with any one (thorough any) pair of them in the same tick; delayed puts and processing with arbitrary times (multiples of 1/8 s)."
BOUNDS = "2 items, up to 3 waiting consumers, 5 (thorough 6) operations; 3 delayed puts; 2 consumers with 3 (thorough 4) puts of arbitrary times and processing durations"
OUTSIDE = "more items or consumers; use from several threads"
ASSUMPTIONS = ["asyncio runs ready callbacks in the order they were scheduled"]


async def spin(n=6):
    for _ in range(n):
        await asyncio.sleep(0)


@unit("history", params=[{"k": 5, "tick": t} for t in (None, 1, 2, 3, 4)], thorough_params=[{"k": 6, "tick": t} for t in (None, 1, 2, 3, 4, 5)], reach=["handed", "told"])
def history(x, k, tick):
    """operations one after the other; after the operation number `tick` the next one comes in the same tick"""
    import dask_gateway_server.workqueue as m

    async def main():
        q = m.WorkQueue()
        waiting = []          # consumers inside get()
        dirty = {"a": False, "b": False}      # put since the last hand-out
        busy = set()
        closed = False

        def collect():
            for t in list(waiting):
                if not t.done():
                    continue
                waiting.remove(t)
                if t.cancelled():
                    continue
                if t.exception() is not None:
                    x.check(isinstance(t.exception(), m.WorkQueueClosed) and closed, "a consumer is refused only after closing")
                    x.reach("told")
                    continue
                i = t.result()
                x.check(dirty[i], "an item is handed out only after a put since its last hand-out")
                x.check(i not in busy, "an item is not handed out again before it is done")
                dirty[i] = False
                busy.add(i)
                x.reach("handed")

        def settled():
            collect()
            free = [i for i in dirty if dirty[i] and i not in busy]
            if closed:
                x.check(not waiting, "after closing every consumer is told so")
            else:
                x.check(not (free and waiting), "no consumer waits while an item is available")
                x.check(q.is_empty() == (not any(dirty.values())), "the queue is empty exactly if nothing is to be handed out")
        cancelled = []
        for n in range(k):
            ops = ["put a", "put b", "get"] + ["done " + i for i in sorted(busy)] + ["cancel %d" % i for i in range(len(waiting))] + ([] if closed else ["close"])
            op = x.choice("op%d" % n, ops).split()
            if op[0] == "put":
                q.put(op[1])
                dirty[op[1]] = True
            elif op[0] == "get":
                waiting.append(asyncio.ensure_future(q.get()))
            elif op[0] == "done":
                q.task_done(op[1])
                busy.discard(op[1])
            elif op[0] == "cancel":
                waiting[int(op[1])].cancel()
            else:
                q.close()
                closed = True
            if tick != n + 1:
                await spin()
                settled()
        await spin()
        settled()
        x.observe("end", [sorted(busy), len(waiting), sorted(i for i in dirty if dirty[i])])
        if not closed:
            # whatever is left arrives once it can
            for i in list(busy):
                q.task_done(i)
                busy.discard(i)
            left = [i for i in dirty if dirty[i]]
            more = max(0, len(left) - len(waiting))
            for _ in range(more):
                waiting.append(asyncio.ensure_future(q.get()))
            await spin()
            settled()
            x.check(not any(dirty.values()), "everything put is handed out to a consumer")
        for t in waiting:
            t.cancel()
    run_coro(x, main)


@unit("delayed", params=[{"n": 1, "plain": True}, {"n": 2, "plain": True}, {"n": 3, "plain": False}], thorough_params=[{"n": 3, "plain": True}, {"n": 4, "plain": False}], reach=["done"])
def delayed(x, n, plain):
    """delayed puts of one item at arbitrary times"""
    import dask_gateway_server.workqueue as m

    async def main():
        q = m.WorkQueue(backoff=m.Backoff(base_delay=0.5, max_delay=4))
        loop = asyncio.get_running_loop()
        out = []
        asked = []

        async def consumer():
            while True:
                i = await q.get()
                out.append((i, loop.time()))
                q.task_done(i)
        c = asyncio.ensure_future(consumer())
        await spin()
        q.put_after("other", 1000)
        for i in range(n):
            d = x.time("delay%d" % i, -1, 100)
            kinds = ["after", "put", "backoff"] if plain else ["after"]
            kind = x.choice("kind%d" % i, kinds)
            now = loop.time()
            if kind == "put":
                q.put("a")
                asked.append((now, now))
            elif kind == "backoff":
                f = q.failures("a")
                q.put_backoff("a")
                asked.append((now, now + 0.5 * 2 ** f))
                x.check(q.failures("a") == f + 1, "a failure is counted")
            else:
                q.put_after("a", d)
                asked.append((now, x.max(now, now + d)))
            await spin()
            if i < n - 1:
                pause = x.time("pause%d" % i, 0, 100)
                await asyncio.sleep(pause)
        await asyncio.sleep(500)
        mine = [t for i, t in out if i == "a"]
        x.observe("handed", len(mine))
        x.check(all(i == "a" for i, t in out), "nothing else arrives")
        for h in mine:
            x.check(x.any(*[x.all(t <= h, w == h) for t, w in asked]), "a delayed put arrives at a requested time, not earlier")
        for t, w in asked:
            x.check(x.any(*[x.all(h >= t, h <= w) for h in mine]) if mine else False, "a delayed put is not lost or late")
        await asyncio.sleep(1000)
        x.check([i for i, t in out].count("other") == 1, "other items' delayed puts are not affected")
        x.reach("done")
        c.cancel()
    run_coro(x, main)


@unit("work", params=[{"n": 3, "items": "aab", "workers": 2}, {"n": 3, "items": "aaa", "workers": 2}], thorough_params=[{"n": 4, "items": "aaba", "workers": 2}, {"n": 4, "items": "abab", "workers": 3}], reach=["finished"])
def work(x, n, items, workers):
    """consumers that take arbitrarily long, puts at arbitrary times"""
    import dask_gateway_server.workqueue as m

    async def main():
        q = m.WorkQueue()
        loop = asyncio.get_running_loop()
        running = []
        starts = []
        puts = []
        k = [0]

        async def consumer():
            while True:
                try:
                    i = await q.get()
                except m.WorkQueueClosed:
                    return
                x.check(i not in running, "an item is never processed twice at the same time")
                running.append(i)
                starts.append((i, loop.time(), len(puts)))
                k[0] += 1
                await asyncio.sleep(x.time("work%d" % k[0], 0.125, 1000))
                running.remove(i)
                q.task_done(i)
        cs = [asyncio.ensure_future(consumer()) for _ in range(workers)]
        for j in range(n):
            await asyncio.sleep(x.time("gap%d" % j, 0.125, 1000))
            puts.append((items[j], loop.time()))
            q.put(items[j])
        for _ in range(3 * n):
            if not running and q.is_empty():
                break
            await asyncio.sleep(10000)
        x.observe("starts", [i for i, t, p in starts])
        for j, (i, t) in enumerate(puts):
            x.check(any(s[0] == i and s[2] > j for s in starts), "every item put is handed out after its last put")
        x.check(len(starts) <= n, "puts are merged, never multiplied")
        x.check(not running, "all work ends")
        q.close()
        await spin()
        x.check(all(c.done() for c in cs), "after closing every consumer is told so")
        x.reach("finished")
    run_coro(x, main)
