"""A stand-in for aiohttp.ClientSession whose answers are inputs."""
import asyncio

import aiohttp


class Answer:
    """what a request returns; usable with and without `async with`, like aiohttp's"""
    def __init__(self, x, status=200, data=None, text="", headers=None, reason="reason"):
        self.x, self.status, self.data, self.body, self.headers, self.reason = x, status, data, text, dict(headers or {}), reason
        self.released = False

    @property
    def ok(self):
        return self.status < 400

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status, message=self.reason)

    async def json(self, **kw):
        if isinstance(self.data, BaseException):
            raise self.data
        return self.data

    async def text(self, **kw):
        return self.body

    async def read(self):
        return self.body.encode()

    def release(self):
        self.released = True

    close = release

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.released = True

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.x.missing("response.%s" % k)


class Pending:
    """stands for aiohttp's request context manager: awaitable and `async with`"""
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()

    async def __aenter__(self):
        self.r = await self.coro
        return self.r

    async def __aexit__(self, *a):
        self.r.release()


class Session:
    """script(method, url, kw) -> Answer, or raises; may be a coroutine function"""
    def __init__(self, x, script):
        self.x, self.script, self.sent, self.closed, self.closings = x, script, [], False, 0

    def request(self, method, url, *, raise_for_status=None, **kw):
        async def go():
            if self.closed:
                raise RuntimeError("Session is closed")
            self.sent.append((method, url, kw))
            r = self.script(method, url, kw)
            if hasattr(r, "__await__"):
                r = await r
            else:
                await asyncio.sleep(0)
            if callable(raise_for_status):
                await raise_for_status(r)
            elif raise_for_status:
                r.raise_for_status()
            return r
        return Pending(go())

    def post(self, url, **kw):
        return self.request("POST", url, **kw)

    def get(self, url, **kw):
        return self.request("GET", url, **kw)

    def put(self, url, **kw):
        return self.request("PUT", url, **kw)

    def delete(self, url, **kw):
        return self.request("DELETE", url, **kw)

    def patch(self, url, **kw):
        return self.request("PATCH", url, **kw)

    async def close(self):
        self.closed = True
        self.closings += 1

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.x.missing("session.%s" % k)


def refused():
    return aiohttp.ClientConnectionError("refused")
