"""The user's client on a virtual-time loop, in front of scripted answers."""
import asyncio

import aiohttp

from sesslib import Answer, Session
from symx.env import Clock, Patch, Stub
from symx.vloop import VLoop


class Client:
    """patches what connects the client to the outside; `script(method, url, kw)` answers"""
    def __init__(self, x, script):
        self.x, self.script, self.patch, self.sessions, self.alive = x, script, Patch(), [], True

    def __enter__(self):
        import dask
        import dask_gateway.client as m
        if self.x.symbolic:
            from symx.libmodels import install_copies
            install_copies(["distributed.comm.addressing"])
        x, p = self.x, self.patch
        self.m = m
        self.loop = VLoop(x, max_steps=20000)
        asyncio.set_event_loop(self.loop)
        Clock.mono = lambda: self.loop.now
        p.set(aiohttp, "ClientSession", self.session)
        p.set(aiohttp, "CookieJar", lambda *a, **k: None)
        p.set(m, "LoopRunner", self.runner)
        self.config = dask.config.set({"gateway.address": None, "gateway.public-address": None, "gateway.proxy-address": None, "gateway.auth.type": "basic", "gateway.auth.kwargs": {"username": "u", "password": "p"}, "gateway.http-client.proxy": False, "gateway.cluster.options": {}})
        self.config.__enter__()
        return self

    def runner(self, *a, **k):
        x = self.x
        return Stub(x, "loop runner", start=lambda: None, stop=lambda *a: None, loop=Stub(x, "loop", asyncio_loop=Stub(x, "asyncio loop", is_running=lambda: self.alive)))

    def session(self, *a, **k):
        s = Session(self.x, self.script)
        self.sessions.append(s)
        return s

    @property
    def sent(self):
        return [q for s in self.sessions for q in s.sent]

    def run(self, coro):
        return self.loop.drive(coro)

    def __exit__(self, *a):
        self.alive = False
        self.config.__exit__(None, None, None)
        self.patch.undo()
        Clock.mono = None
        self.loop.shutdown()


def report(status="RUNNING", name="c1", **kw):
    r = {"name": name, "dashboard_route": "/clusters/" + name + "/status" if status == "RUNNING" else None, "status": status, "start_time": 1700000000000, "stop_time": 1700000001000 if status in ("STOPPED", "FAILED") else None, "options": {}}
    if status == "RUNNING":
        r.update(tls_cert="CERT", tls_key="KEY")
    else:
        r.update(tls_cert=None, tls_key=None)
    r.update(kw)
    return r
