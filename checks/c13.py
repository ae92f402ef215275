"""C13: secrets are stored only encrypted and read back unchanged."""
import base64

from dblib import Database, cleanup, make_backend
from symx.env import Clock, Patch, Stub, Uuid, UuidSeq, unit
from symx.vloop import run_coro

TECHNIQUE = "symbolic execution of the real storage, loading and key handling (Python source) with the cipher as an invertible marking; z3 over credentials and keys"
LEVEL_NOTE = "Two clusters with arbitrary certificates and keys (2 bytes each, no ';' as in PEM), every later record change, restart with the same, rotated or added keys; keys of every length 0..46 with symbolic content. Trusts Fernet itself."
BOUNDS = "2 clusters, certificate and key of 0..2 arbitrary bytes except ';'; 2 keys; keys of 0..46 bytes; one pass of every kind of record change"
OUTSIDE = "the strength of the cipher; credentials containing ';' (PEM never does)"
ASSUMPTIONS = ["Fernet decrypts exactly what it encrypted with the same key (replays use the real one)"]
replay_cleanup = cleanup
RAW = [bytes(range(i, i + 32)) for i in (0, 64)]


def crypto(x, m, p):
    """-> opened(stored): the plaintext, checked to have been sealed with the first key"""
    from cryptography.fernet import Fernet, InvalidToken
    keys = [base64.urlsafe_b64encode(r) for r in RAW]
    if x.symbolic:
        class F:
            def __init__(self, k):
                self.tag = b"#%d#" % keys.index(k)

        class MF:
            def __init__(self, fs):
                self.fs = list(fs)
                assert self.fs

            def encrypt(self, b):
                return self.fs[0].tag + b

            def decrypt(self, b):
                for f in self.fs:
                    if b[:3] == f.tag:
                        return b[3:]
                raise InvalidToken()
        p.set(m, "Fernet", F)
        p.set(m, "MultiFernet", MF)

        def opened(b, k=0):
            return b[3:] if b[:3] == b"#%d#" % k else None
    else:
        def opened(b, k=0):
            try:
                return Fernet(keys[k]).decrypt(b)
            except InvalidToken:
                return None
    return keys, opened


PEM = "".join(chr(c) for c in range(32, 127) if chr(c) not in ";")


@unit("stored", params=[{"then": t} for t in ("same", "rotated", "added")], reach=["restarted"])
def stored(x, then):
    import dask_gateway_server.backends.db_base as m
    J = m.JobStatus
    Clock.wall = lambda: 1000.0
    Uuid.fn = UuidSeq()
    creds = []

    def keypair(name):
        i = len(creds)
        c, k = (x.bytes("%s%d" % (n, i), 2, alphabet=None) for n in ("cert", "key"))
        for b in (c, k):
            for j in range(len(b)):
                x.assume(b[j] != ord(";"))
        creds.append((name, b"CRT" + c, b"PRV" + k))
        return creds[-1][1:]

    async def main():
        with Database(x, persistent=True) as db, Patch() as p:
            keys, opened = crypto(x, m, p)
            p.set(m, "new_keypair", keypair)
            b = make_backend(x, db, lambda op, o: [{"job": 1}] if op.startswith("start") else None, db_encrypt_keys=keys[:1])

            async def opts(user, o):
                return o, Stub(x, "config", to_dict=lambda: {"cluster_max_workers": 3, "environment": {}})
            b.process_cluster_options = opts
            names = [await b.start_cluster(Stub(x, "user", name=u), {"o": 1}) for u in ("alice", "bob")]

            def compare(what, dm):
                secrets = []
                for name, (n, crt, key) in zip(names, creds):
                    c = dm.get_cluster(name)
                    x.check(n == name, "a key pair is made for each cluster by name")
                    x.check(x.all(c.tls_cert == crt, c.tls_key == key), what + ": certificate and key are the cluster's own")
                    secrets.append(c.token)
                x.check(secrets[0] != secrets[1] and len(secrets[0]) > 0, what + ": every cluster has its own token")
                return secrets
            tokens = compare("in memory", b.db)
            # later changes of the record
            c = b.db.get_cluster(names[0])
            await b.reconcile_cluster(c)
            await b.on_cluster_heartbeat(names[0], {"count": 1, "active_workers": [], "closing_workers": [], "closed_workers": [],
                                                    "api_address": "http://a", "scheduler_address": "tcp://s", "dashboard_address": ""})
            await b.reconcile_cluster(c)
            for w in c.workers.values():
                await b.reconcile_worker(w)
            await b.stop_cluster(names[1])
            for r, (n, crt, key), tok in zip(db.rows("clusters"), creds, tokens):
                x.check(r["token"] is not None and opened(bytes_(x, r["token"])) == tok.encode(), "the stored token is the encrypted token")
                pl = opened(bytes_(x, r["tls_credentials"]))
                x.check(pl is not None, "the stored credentials are encrypted with the first key")
                x.check(x.all(pl == crt + b";" + key), "the stored credentials are exactly certificate and key")
            for r in db.rows("clusters") + db.rows("workers"):
                for k, v in r.items():
                    if k not in ("token", "tls_credentials"):
                        s = repr(v)
                        x.check(not any(t in s for t in tokens) and "PRV" not in s and "CRT" not in s, "no other column contains a secret")
            ks = {"same": keys[:1], "rotated": [keys[1], keys[0]], "added": [keys[0], keys[1]]}[then]
            from cryptography.fernet import InvalidToken
            try:
                dm = m.DataManager(url=db.url, encrypt_keys=ks)
            except InvalidToken:
                dm = None
            x.check(dm is not None, "a restart with the key among the configured ones can read what was stored")
            x.check(compare("after a restart", dm) == tokens, "tokens survive a restart")
            x.reach("restarted")
    run_coro(x, main)


def bytes_(x, v):
    return v


def b64_key(x, n):
    """a 44 character key that decodes to n bytes; -1: does not decode"""
    if n == -1:
        return b"a" * 43 + b"!"
    if n == -2:
        return b"=" * 44
    k = base64.urlsafe_b64encode(bytes(range(200, 200 + n)))
    return k + b"!" * (44 - len(k))


@unit("key", params=[{"kind": k} for k in ("raw", "encoded", "nonascii")], reach=["accepted", "refused"])
def key(x, kind):
    """which keys are accepted, and as what"""
    import dask_gateway_server.backends.db_base as m
    if kind == "raw":
        n = x.choice("len", [i for i in range(47) if i != 44])
        k = x.bytes("k", n, n, alphabet=None)
        good, want = n == 32, k
        as_str = x.flip("as_str")
        k = k.decode() if as_str else k
    elif kind == "encoded":
        n = x.choice("n", [-2, -1] + list(range(34)))
        k = b64_key(x, n)
        good, want = n == 32, bytes(range(200, 200 + n)) if n > 0 else None
        as_str = x.flip("as_str")
        k = k.decode() if as_str else k
    else:
        k = x.choice("k", ["\u00e9" * 32, "\u00e9" * 44, "k" * 32])
        good, want = k == "k" * 32, b"k" * 32
    if x.symbolic and kind == "raw":
        x.model(base64.urlsafe_b64encode, lambda b: ("encoded", b))
    how = x.choice("how", ["config", "environment"]) if isinstance(k, bytes) and kind == "encoded" and b"!" not in k and b"=" * 44 != k else "config"
    import os
    old = os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
    try:
        if how == "environment":
            os.environb[b"DASK_GATEWAY_ENCRYPT_KEYS"] = b" " + k + b" ; "
            b = m.DBBackendBase(db_url="sqlite:////scratch/x.sqlite")
        else:
            b = m.DBBackendBase(db_url="sqlite:////scratch/x.sqlite", db_encrypt_keys=[k])
        keys = b.db_encrypt_keys
    except Exception as e:
        if not is_refusal(e):
            raise
        keys = None
    finally:
        os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
        if old is not None:
            os.environ["DASK_GATEWAY_ENCRYPT_KEYS"] = old
    x.check((keys is not None) == good, "exactly keys of 32 bytes are accepted")
    if keys is not None:
        x.check(len(keys) == 1, "one key is one key")
        enc = keys[0]
        x.check(x.eq(enc, ("encoded", want)) if x.symbolic and kind == "raw" else enc == base64.urlsafe_b64encode(want), "the key used is the one given")
        x.reach("accepted")
    else:
        x.reach("refused")
    if kind == "nonascii":
        x.reach("refused"), x.reach("accepted")


def is_refusal(e):
    from traitlets import TraitError
    return isinstance(e, (ValueError, TraitError))


@unit("required", reach=["accepted", "refused"])
def required(x):
    """no keys: only for an in-memory database"""
    import os
    import dask_gateway_server.backends.db_base as m
    from traitlets.config import Config
    url = x.choice("url", ["sqlite:///:memory:", "sqlite://", "sqlite:////scratch/x.sqlite", "sqlite:///x.sqlite", "postgresql://u:p@h/db", "mysql://h/db", "sqlite:///:memory:.sqlite"])
    given = x.choice("given", ["unset", "empty", "blank environment"])
    style = x.choice("style", ["config", "arguments"])
    old = os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
    try:
        if given == "blank environment":
            os.environ["DASK_GATEWAY_ENCRYPT_KEYS"] = " ; "
        kw = {"db_encrypt_keys": []} if given == "empty" else {}
        if style == "arguments":
            b = m.DBBackendBase(db_url=url, **kw)
        else:
            c = Config()
            if kw:
                c.DBBackendBase.db_encrypt_keys = []
            c.DBBackendBase.db_url = url
            b = m.DBBackendBase(config=c)
        keys = b.db_encrypt_keys
        ok = True
    except Exception as e:
        if not is_refusal(e):
            raise
        ok = False
    finally:
        os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
        if old is not None:
            os.environ["DASK_GATEWAY_ENCRYPT_KEYS"] = old
    memory = url in ("sqlite://", "sqlite:///:memory:")
    x.check(ok == memory, "without keys only an in-memory database is accepted")
    x.reach("accepted" if ok else "refused")
