"""C34: TLS connections are passed through by server name without losing a byte."""
from golib import Proxy, hello, preload
from symx.env import unit

TECHNIQUE = "symbolic execution of the real Go proxy (its SSA form, printed from the current source) on connections with symbolic server names, payloads and splits; z3"
LEVEL_NOTE = "Server names of 0-3 symbolic letters with and without the prefix against a table of nested names, hellos of every size up to that of a record, arriving in two or three pieces cut anywhere, cut short anywhere, connections that begin with any bytes at all, targets that refuse, whole conversations, and connections that can't be accepted or are no hellos between good ones; payloads and answers are symbolic bytes."
BOUNDS = "names of up to 3 letters after the prefix; 2-3 pieces per connection; hellos of 7 sizes up to 16 KiB; up to 8 arbitrary first bytes; 1-3 failing connections among good ones"
OUTSIDE = "the hello's own parsing (crypto/tls; modelled on one well-formed layout and anything else as no name); hellos fragmented over several records; half-closed connections (both directions end together); interleavings of the two copying goroutines beyond which of them ends first"
ASSUMPTIONS = ["crypto/tls.Server reports the server name of a hello and reads through the given connection, io.Copy copies, and net.Conn delivers in order, as documented (replays run the real ones)"]

PREFIX = list(b"daskgateway-")


def name_bytes(x, name, n, alphabet="abc"):
    b = x.bytes(name, n, n, alphabet)
    return [b[i] for i in range(n)]


def any_bytes(x, name, n):
    b = x.bytes(name, n, n)
    return [b[i] for i in range(n)]


def split(x, data, cuts):
    out, k = [], 0
    for c in cuts:
        out.append(data[k:c])
        k = c
    return out + [data[k:]]


def same(x, got, want, label, info=None):
    x.check(len(got) == len(want), label, (len(got), len(want), info))
    if len(got) == len(want):
        x.check(x.all(*[a == b for a, b in zip(got, want)]), label, info)


def table(x, p, names):
    p.load([p.route("SNI", sni=n, target=("tls://" if i % 2 else "") + p.targets[i]) for i, n in enumerate(names)])


@unit("names", params=[dict(n=n, forwarder=f) for n in (0, 1, 2, 3) for f in (False, True)], reach=["refused"])
def names(x, n, forwarder):
    """any server name with and without the prefix, against a table of names"""
    p = Proxy(x)
    table(x, p, ["a", "ab", "abc"])
    prefixed = x.choice("prefixed", [0, 1, 2])
    name = (PREFIX if prefixed == 2 else []) + name_bytes(x, "name", n)
    full = (PREFIX if prefixed else []) + name
    data = hello(full or None) + any_bytes(x, "payload", 2)
    to, got = p.tls([data], forwarder)
    x.observe("to", to)
    if not prefixed:
        judge_other(x, to, got, data, forwarder)
        return
    want = None
    for i, t in enumerate([b"a", b"ab", b"abc"]):
        if len(t) == len(name) and x.conc(x.all(*[a == b for a, b in zip(name, t)])):
            want = i
    x.check(to == want, "a connection goes to the target registered for exactly its name, or nowhere", (name, to))
    if want is None:
        x.reach("refused")
    else:
        same(x, got, data, "the target receives every byte", to)
        x.reach("passed")


def judge_other(x, to, got, data, forwarder):
    """a connection that names no cluster"""
    if forwarder:
        x.check(to == "http", "a connection that names no cluster is left to the web side", to)
        same(x, got, data, "the web side receives every byte")
        x.reach("left")
    else:
        x.check(to is None, "a connection that names no cluster is never forwarded to one", to)
        x.reach("refused")


FULL = hello(PREFIX + [97, 98])


@unit("splits", params=[dict(first=k) for k in range(1, 9)], reach=["passed"])
def splits(x, first):
    """a hello and what follows it, arriving in any pieces"""
    p = Proxy(x)
    table(x, p, ["ab"])
    data = hello(PREFIX + name_bytes(x, "name", 2, "ab")) + any_bytes(x, "payload", 3)
    n = len(data)
    cut = x.int("cut", 1, n - 1)
    x.assume(cut % 8 == first - 1)
    cut = x.conc(cut)
    cuts = [cut]
    second = x.choice("second", [None, 1, 4, 5, 6, n - 4, n - 3, n - 2, n - 1])
    if second is not None and second != cut:
        cuts = sorted([cut, second])
    to, got = p.tls(split(x, data, cuts))
    x.observe("to", to)
    if to is None:
        x.check(len(got) == 0, "nothing is sent nowhere")
        return
    same(x, got, data, "the target receives every byte, once and in order", cuts)
    x.reach("passed")


@unit("large hellos", params=[dict(extra=e) for e in (0, 3000, 3950, 4020, 4096, 8000, 16000)], reach=["passed"])
def large(x, extra):
    """hellos of any size a record can have"""
    p = Proxy(x)
    table(x, p, ["ab"])
    data = hello(PREFIX + [97, 98], extra) + any_bytes(x, "payload", 2)
    cut = x.choice("cut", [5, 4096, len(data) - 1])
    to, got = p.tls(split(x, data, [cut]) if cut < len(data) else [data])
    x.observe("to", to)
    x.check(to == 0, "a connection goes to the target registered for its name", (extra, to))
    same(x, got, data, "the target receives every byte", extra)
    x.reach("passed")


@unit("anything", params=[dict(n=n, forwarder=f) for n in (0, 1, 2, 4, 5, 6, 8) for f in (False, True)], reach=[])
def anything(x, n, forwarder):
    """a few bytes of anything: never to a cluster"""
    p = Proxy(x)
    table(x, p, ["", "a"])
    data = any_bytes(x, "data", n)
    to, got = p.tls([data], forwarder)
    x.observe("to", to)
    if n == 0:
        x.check(to != 0 and to != 1, "a connection that names no cluster is never forwarded to one", to)
        return
    judge_other(x, to, got, data, forwarder)


@unit("cut hellos", params=[dict(forwarder=f) for f in (False, True)], reach=["refused"])
def cut(x, forwarder):
    """a hello that ends before it is complete names no cluster"""
    p = Proxy(x)
    table(x, p, ["ab"])
    data = hello(PREFIX + [97, 98])
    data = data[:x.choice("length", list(range(1, len(data))))]
    to, got = p.tls([data], forwarder)
    x.observe("to", to)
    judge_other(x, to, got, data, forwarder)
    x.reach("refused")


@unit("refused targets", reach=["refused", "passed"])
def refused(x):
    """a target that does not accept connections"""
    p = Proxy(x)
    table(x, p, ["a", "b"])
    name = name_bytes(x, "name", 1, "ab")
    down = x.choice("down", [[0], [1], [0, 1], []])
    data = hello(PREFIX + name) + any_bytes(x, "payload", 1)
    to, got = p.tls([data], x.flip("forwarder"), down)
    x.observe("to", to)
    i = 0 if x.conc(name[0] == 97) else 1
    x.check(to == (None if i in down else i), "a connection goes to its target or nowhere", (i, down, to))
    if to is not None:
        same(x, got, data, "the target receives every byte")
    x.reach("refused" if to is None else "passed")


@unit("conversations", reach=["talked"])
def conversation(x):
    """what the client sends arrives, and what the target answers comes back"""
    p = Proxy(x)
    table(x, p, ["ab"])
    data = hello(PREFIX + [97, 98]) + any_bytes(x, "payload", 3)
    cut = x.choice("cut", [1, 5, len(data) - 4, len(data) - 3, len(data) - 1])
    reply = any_bytes(x, "reply", 3)
    to, got, back = p.talk(split(x, data, [cut]), reply, x.flip("second first"))
    x.check(to == 0, "a connection goes to its target", to)
    same(x, got, data, "the target receives every byte")
    same(x, back, reply, "the client receives every byte of the answer")
    x.reach("talked")


@unit("half-closed", params=[dict(who=w) for w in ("client", "target")], reach=["talked"])
def half_closed(x, who):
    """one side ends what it sends before the other has sent everything"""
    p = Proxy(x)
    table(x, p, ["ab"])
    first = hello(PREFIX + [97, 98]) + any_bytes(x, "first", x.choice("n", [0, 2]))
    rest = any_bytes(x, "rest", 3)
    reply = any_bytes(x, "reply", 3)
    to, got, back = p.halves(first, rest, reply, who, x.flip("second first"))
    x.check(to == 0, "a connection goes to its target", to)
    same(x, got, first + rest, "the target receives every byte")
    same(x, back, reply, "the client receives every byte of the answer")
    x.reach("talked")


@unit("failures to accept", params=[dict(n=n) for n in (1, 2, 3)], reach=["failed"])
def accepting(x, n):
    """connections that cannot be accepted and connections that are no hellos, between good ones"""
    p = Proxy(x)
    table(x, p, ["a", "b"])
    script, want = [], []
    for k in range(n):
        what = x.choice("connection %d" % k, ["a", "b", "fails", "garbage", "empty", "unknown"])
        if what == "fails":
            script.append(None)
            x.reach("failed")
            continue
        tag = [k]
        script.append([hello(PREFIX + list(what[:1].encode())) + tag] if what in "ab" else [[71, 69, 84] + tag] if what == "garbage" else [] if what == "empty" else [hello(PREFIX + [122]) + tag])
        want.append({"a": 0, "b": 1}.get(what))
    to = p.serve(script)
    x.check(len(to) == len(want) and all(a == b for a, b in zip(to, want)), "every connection that can be accepted is served", (to, want))
