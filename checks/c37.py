"""C37: addresses are normalised without changing their meaning."""
import socket

from symx.env import Patch, unit

TECHNIQUE = "symbolic execution of the real address normalisation (Python source) over symbolic strings against a written-out grammar; z3 over bit vectors"
LEVEL_NOTE = "Every address of up to 6 (thorough 7) characters of the alphabet digits, letters, dot, colon, sign, underscore, blank, and host parts up to 6 (thorough 8) characters before a port; with and without resolving the wildcard host."
BOUNDS = "strings up to 6 (thorough 7) characters over the characters a digit letter . : + - _ blank; hosts up to 6 (thorough 8) arbitrary printable characters with 2-digit ports; port numbers up to 5 digits"
OUTSIDE = "non-ASCII digits and whitespace; whether the port can be bound"
ASSUMPTIONS = ["an integer is what Python's int() reads: blanks around it, a sign and single underscores between digits are allowed"]
FREE = 45678


class Socket:
    x = None

    def __init__(self, *a, **k):
        self.bound = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def bind(self, addr):
        self.bound = addr

    def getsockname(self):
        if self.bound is None or self.bound[1] != 0:
            self.x.missing("a free port is asked for by binding to port 0")
        return ("0.0.0.0", FREE)

    def close(self):
        pass


def digit(x, c):
    return x.all(c >= "0", c <= "9")


def number(x, s):
    """value of an integer literal, or None; decides character by character"""
    n = len(s)
    i = 0
    while i < n and s[i] == " ":
        i += 1
    while n > i and s[n - 1] == " ":
        n -= 1
    sign = 1
    if i < n and (s[i] == "+" or s[i] == "-"):
        sign = -1 if s[i] == "-" else 1
        i += 1
    if i >= n:
        return None
    v = 0
    last = "_"
    while i < n:
        if s[i] == "_":
            if last == "_":
                return None
        elif digit(x, s[i]):
            v = v * 10 + (x.digit(s[i]))
        else:
            return None
        last = s[i]
        i += 1
    if last == "_":
        return None
    return sign * v


def expected(x, s, resolve):
    """-> (host, port) or None"""
    at = [i for i in range(len(s)) if s[i] == ":"]
    if len(at) != 1:
        return None
    host, port = s[:at[0]], number(x, s[at[0] + 1:])
    if port is None:
        return None
    if resolve and (len(host) == 0 or host == "0.0.0.0"):
        host = "machine"
    return host, (FREE if port == 0 else port)


def compare(x, s, resolve):
    import dask_gateway_server.utils as m
    Socket.x = x
    with Patch() as p:
        p.set(socket, "socket", Socket)
        p.set(socket, "gethostname", lambda: "machine")
        try:
            got = m.normalize_address(s, resolve_host=resolve) if resolve else m.normalize_address(s)
        except ValueError:
            got = None
    want = expected(x, s, resolve)
    if want is None:
        x.check(got is None, "what is not host:port is refused")
        x.reach("refused")
        return
    x.check(got is not None, "a host and an integer port are accepted")
    if got is None:
        return
    x.check(x.eq(got, x.text(want[0], ":", want[1])), "host and port keep their meaning")
    x.reach("accepted")


@unit("any", params=[{"n": n, "resolve": r} for n in (3, 4) for r in (False, True)] + [{"n": 5, "resolve": True}, {"n": 6, "resolve": False}], thorough_params=[{"n": 6, "resolve": True}, {"n": 7, "resolve": False}], reach=["accepted", "refused"], time_limit=800)
def any_(x, n, resolve):
    compare(x, x.str("address", n, n, alphabet="0159:+-_ .a"), resolve)


@unit("host", params=[{"n": n, "resolve": r} for n in (1, 4, 6) for r in (False, True)], thorough_params=[{"n": 8, "resolve": r} for r in (False, True)], reach=["accepted"])
def host(x, n, resolve):
    compare(x, x.str("host", n, n) + ":" + x.str("port", 2, 2, alphabet="0123456789"), resolve)


@unit("wildcard", params=[{"resolve": r} for r in (False, True)], reach=["accepted"])
def wildcard(x, resolve):
    h = x.str("host", 7, 7, alphabet="0.:")
    compare(x, h + ":" + x.str("port", 1, 1, alphabet="08"), resolve)


@unit("port", params=[{"n": n} for n in (1, 3, 5)], reach=["accepted"])
def port(x, n):
    compare(x, x.choice("host", ["", "h", "10.0.0.1"]) + ":" + x.str("port", n, n, alphabet="0123456789"), False)
