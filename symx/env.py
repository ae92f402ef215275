"""Environment shared by harnesses in both modes: clock, uuid, logging, stubs, unit registry."""
import asyncio
import logging
import time
import uuid
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

_time, _mono = time.time, time.monotonic


class Clock:
    wall = None      # callables
    mono = None


def _t():
    return Clock.wall() if Clock.wall is not None else _time()


def _m():
    return Clock.mono() if Clock.mono is not None else _mono()


time.time = _t
time.monotonic = _m

_uuid4 = uuid.uuid4


class Uuid:
    fn = None


def _u():
    return Uuid.fn() if Uuid.fn is not None else _uuid4()


uuid.uuid4 = _u


class FakeUUID:
    def __init__(self, n, prefix="id"):
        self.hex = "%s%04d" % (prefix, n)

    def __str__(self):
        return self.hex


class UuidSeq:
    """fresh, pairwise different ids"""
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return FakeUUID(self.n)


class Unit:
    def __init__(self, name, fn, params, tiers, reach, limits):
        self.name, self.fn, self.params, self.tiers, self.reach, self.limits = name, fn, params, tiers, reach, limits


UNITS = []


def unit(name, reach=(), tiers=("quick", "thorough"), **limits):
    """Register a harness. params may be a list of dicts (one unit each)."""
    params = limits.pop("params", [{}])
    qparams = limits.pop("thorough_params", None)

    def deco(fn):
        for p in params:
            suffix = "".join(" %s=%s" % kv for kv in sorted(p.items()))
            UNITS.append(Unit(name + suffix, fn, p, tiers, reach, limits))
        for p in qparams or []:
            if p in params:
                continue
            suffix = "".join(" %s=%s" % kv for kv in sorted(p.items()))
            UNITS.append(Unit(name + suffix, fn, p, ("thorough",), reach, limits))
        return fn
    return deco


def reset():
    Clock.wall = Clock.mono = None
    Uuid.fn = None


class Stub:
    """attribute access outside of what is modelled makes the check inconclusive"""
    def __init__(self, x, what, **kw):
        self.__dict__.update(kw)
        self.__dict__["_x"] = x
        self.__dict__["_what"] = what

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._x.missing("%s.%s" % (self.__dict__.get("_what"), k))


class Patch:
    """setattr with undo"""
    def __init__(self):
        self.saved = []

    def set(self, obj, name, value):
        missing = object()
        self.saved.append((obj, name, obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name, missing), missing))
        setattr(obj, name, value)

    def undo(self):
        for obj, name, old, missing in reversed(self.saved):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self.saved = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.undo()


def sync(coro):
    """run a coroutine that never suspends"""
    try:
        coro.send(None)
    except StopIteration as exc:
        return exc.value
    coro.close()
    raise RuntimeError("coroutine suspended")


def set_traits(obj, **kw):
    """set trait values without validation (they are the arbitrary configuration)"""
    for k, v in kw.items():
        obj._trait_values[k] = v


def stable_hash(p, cls):
    """objects of cls get hashes in the order they are first looked at, so that sets of them have the same order in every run"""
    seen = {}

    def h(self):
        return seen.setdefault(id(self), (len(seen) + 1, self))[0]
    p.set(cls, "__hash__", h)
