"""A virtual-time asyncio event loop whose choice of the next external event is an input."""
import asyncio
import heapq


class Deadlock(Exception):
    pass


class DTask(asyncio.Task):
    """a task whose place in a set does not depend on its address"""
    def __init__(self, coro, *, loop=None, **kw):
        self._no = loop.numbered = loop.numbered + 1
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._no

    def __eq__(self, o):
        return self is o


class VLoop(asyncio.BaseEventLoop):
    def __init__(self, x, start=0.0, max_steps=4000):
        super().__init__()
        self.x = x
        self.now = start
        self.timers = []
        self.external = []       # (name, future, thunk)
        self.preempt = 0
        self.steps = 0
        self.max_steps = max_steps
        self.idle = self.default_idle
        self.quiescent = False
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))
        self.on_timer = None
        self.numbered = 0
        self.set_task_factory(lambda loop, coro, **kw: DTask(coro, loop=loop, **kw))

    # -- the parts of BaseEventLoop that touch the operating system
    def time(self):
        return self.now

    def _write_to_self(self):
        pass

    def _process_events(self, events):
        pass

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            r = func(*args)
        except Exception as exc:
            fut.set_exception(exc)
        else:
            fut.set_result(r)
        return fut

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context)
        h._scheduled = True
        self.timers.append(h)
        return h

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.now + delay, callback, *args, context=context)

    def _timer_handle_cancelled(self, handle):
        self.timers = [t for t in self.timers if t is not handle]

    def _run_once(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.x.missing("event loop step bound")
        if self._ready:
            if self.preempt > 0 and self.external:
                i = self.x.choice("preempt", list(range(len(self.external) + 1)))
                if i:
                    self.preempt -= 1
                    self.fire(i - 1)
                    return
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()
            return
        if not self.idle(self):
            self.quiescent = True
            self.stop()

    # -- environment
    def ext(self, name, thunk=None):
        """a future that completes when the environment chooses; thunk() gives its result"""
        fut = self.create_future()
        self.external.append((name, fut, thunk))
        return fut

    def fire(self, i):
        name, fut, thunk = self.external.pop(i)
        if fut.done():
            return
        try:
            r = thunk() if thunk is not None else None
        except Exception as exc:
            fut.set_exception(exc)
        else:
            fut.set_result(r)

    def next_timer(self):
        best = None
        for t in self.timers:
            if best is None or t._when < best._when:
                best = t
        return best

    def fire_timer(self, t):
        self.timers = [u for u in self.timers if u is not t]
        if t._when > self.now:
            self.now = t._when
        t._scheduled = False
        self._ready.append(t)

    def default_idle(self, loop):
        self.external = [e for e in self.external if not e[1].done()]
        n = len(self.external) + (1 if self.timers else 0)
        if n == 0:
            return False
        i = self.x.choice("next", list(range(n))) if n > 1 else 0
        if i < len(self.external):
            self.fire(i)
        else:
            self.fire_timer(self.next_timer())
        return True

    def drive(self, coro=None):
        """run until coro completes (or, without coro, until nothing can happen)"""
        self.quiescent = False
        if coro is None:
            self.run_forever()
            return None
        fut = asyncio.ensure_future(coro, loop=self)
        fut.add_done_callback(lambda f: self.stop())
        self.run_forever()
        if not fut.done():
            raise Deadlock()
        return fut.result()

    def settle(self):
        """run ready callbacks only: no timers, no external events"""
        idle, self.idle = self.idle, lambda loop: False
        try:
            self.run_forever()
        finally:
            self.idle = idle

    def shutdown(self):
        self.external = []
        try:
            for t in asyncio.all_tasks(self):
                t._log_destroy_pending = False
                c = t.get_coro()
                t.cancel()
            idle, self.idle = self.idle, lambda loop: False
            self.max_steps = self.steps + 500
            for _ in range(3):
                try:
                    self.run_forever()
                except BaseException:
                    pass
        finally:
            asyncio.set_event_loop(None)
            self.close()


def run_coro(x, coro_fn, **kw):
    """convenience: run one coroutine on a fresh loop"""
    loop = VLoop(x, **kw)
    asyncio.set_event_loop(loop)
    try:
        return loop.drive(coro_fn())
    finally:
        loop.shutdown()
