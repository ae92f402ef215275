"""Database environment of DBBackendBase.

Symbolic mode: `sqlalchemy.create_engine` gives a small relational engine which interprets
the SQLAlchemy expressions built by the code under test over rows with symbolic values.
Replay mode: the same harness runs on a real SQLite database, faults are injected with
SQLAlchemy events at the same operations.
"""
import json
import os
import shutil
import tempfile

import sqlalchemy as sa
from sqlalchemy import exc as sa_exc
from sqlalchemy.sql import elements, operators

from symx.env import Patch

_scratch = []


def cleanup():
    while _scratch:
        shutil.rmtree(_scratch.pop(), ignore_errors=True)


class DBFault(Exception):
    """what an injected failure raises (stands for sqlalchemy.exc.OperationalError)"""


def _fault(kind):
    return sa_exc.OperationalError("injected at %s" % kind, {}, Exception("injected"))


class Row:
    def __init__(self, names, values):
        self.__dict__["_v"] = tuple(values)
        self.__dict__["_mapping"] = dict(zip(names, values))

    def __getattr__(self, k):
        try:
            return self.__dict__["_mapping"][k]
        except KeyError:
            raise AttributeError(k)

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        return self._v[i]

    def _asdict(self):
        return dict(self._mapping)


class Result:
    def __init__(self, rows=(), pk=None, rowcount=-1, names=()):
        self.rows, self.inserted_primary_key, self.rowcount = list(rows), pk, rowcount
        self.lastrowid = pk[0] if pk else None

    def __iter__(self):
        return iter(self.rows)

    def fetchall(self):
        return list(self.rows)

    all = fetchall

    def first(self):
        return self.rows[0] if self.rows else None

    fetchone = first

    def scalars(self):
        return Result([r[0] for r in self.rows])

    def scalar(self):
        return self.rows[0][0] if self.rows else None


class Store:
    """committed tables: name -> list of {column: stored value}"""
    def __init__(self):
        self.tables = {}
        self.next_id = {}

    def copy(self):
        s = Store()
        s.tables = {t: [dict(r) for r in rows] for t, rows in self.tables.items()}
        s.next_id = dict(self.next_id)
        return s


class FakeEngine:
    def __init__(self, db, url):
        self.db, self.url = db, url
        self.listeners = {}
        self.connected = False
        self.fk = False

    def connect_once(self):
        if not self.connected:
            self.connected = True
            eng = self

            class Cur:
                def execute(self, s, *a):
                    if s.upper().replace(" ", "") in ("PRAGMAFOREIGN_KEYS=ON", "PRAGMAFOREIGN_KEYS=1"):
                        eng.fk = True

                def close(self):
                    pass

            class Con:
                def cursor(self):
                    return Cur()

                def execute(self, s, *a):
                    Cur().execute(s)
            for f in self.listeners.get("connect", []):
                f(Con(), None)

    def begin(self):
        return Conn(self, True)

    def connect(self):
        return Conn(self, False)

    def dispose(self, *a, **k):
        pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.db.x.missing("engine.%s" % k)


class Conn:
    def __init__(self, eng, auto):
        self.eng, self.db, self.auto, self.work = eng, eng.db, auto, None

    def __enter__(self):
        self.eng.connect_once()
        if self.auto:
            self._begin()
        return self

    def _begin(self):
        if self.work is None:
            self.db.op("begin")
            self.work = self.db.store.copy()

    def __exit__(self, t, v, tb):
        if t is None and self.auto:
            self.commit()
        self.work = None
        return False

    def begin(self):
        c = Conn(self.eng, True)
        c.work = None
        return c

    def commit(self):
        if self.work is not None:
            self.db.op("commit")
            self.db.store = self.work
            self.work = None
            self.db.commits += 1

    def rollback(self):
        self.work = None

    def close(self):
        self.work = None

    def execute(self, stmt, params=None):
        self._begin()
        self.db.op("execute")
        return Interp(self.db.x, self.work, self.eng.fk).run(stmt, params)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.db.x.missing("connection.%s" % k)


class Interp:
    def __init__(self, x, store, fk):
        self.x, self.s, self.fk = x, store, fk

    def rows(self, table):
        return self.s.tables.setdefault(table.name, [])

    # -- values
    def bind(self, col, v):
        t = col.type
        if isinstance(t, sa.TypeDecorator):
            v = t.process_bind_param(v, None)
        return v

    def result(self, col, v):
        t = col.type
        if isinstance(t, sa.TypeDecorator):
            return t.process_result_value(v, None)
        return v

    def value(self, e, row, params, col=None):
        """value of an expression, stored representation"""
        if isinstance(e, elements.BindParameter):
            v = params[e.key] if e.key in (params or {}) else (e.effective_value if not e.required else self.x.missing("unbound parameter %s" % e.key))
            return self.bind(col, v) if col is not None else v
        if isinstance(e, sa.Column):
            return row[e.name]
        if isinstance(e, elements.Null):
            return None
        if isinstance(e, elements.Grouping):
            return self.value(e.element, row, params, col)
        if isinstance(e, elements.BinaryExpression) and e.operator in (operators.add, operators.sub, operators.mul):
            a, b = self.value(e.left, row, params), self.value(e.right, row, params)
            return None if a is None or b is None else e.operator(a, b)
        self.x.missing("SQL expression %s" % type(e).__name__)

    def cond(self, e, row, params):
        """(is true, is false), each possibly symbolic; neither holds when the value is unknown (NULL)"""
        x = self.x
        unknown = (False, False)
        if e is None:
            return True, False
        if isinstance(e, elements.Grouping):
            return self.cond(e.element, row, params)
        if isinstance(e, elements.BooleanClauseList):
            cs = [self.cond(c, row, params) for c in e.clauses]
            if e.operator is operators.and_:
                return x.all(*[t for t, f in cs]), x.any(*[f for t, f in cs])
            if e.operator is operators.or_:
                return x.any(*[t for t, f in cs]), x.all(*[f for t, f in cs])
        if isinstance(e, elements.True_):
            return True, False
        if isinstance(e, elements.False_):
            return False, True
        if isinstance(e, elements.BinaryExpression):
            op = e.operator
            lc = e.left if isinstance(e.left, sa.Column) else None
            rc = e.right if isinstance(e.right, sa.Column) else None
            if op in (operators.in_op, operators.not_in_op):
                a = self.value(e.left, row, params)
                vals = e.right.value if isinstance(e.right, elements.BindParameter) else None
                if vals is None:
                    x.missing("SQL in")
                if a is None:
                    return unknown
                r = x.any(*[a == (self.bind(lc, v) if lc is not None else v) for v in vals]) if len(vals) else False
                return (r, x.no(r)) if op is operators.in_op else (x.no(r), r)
            a = self.value(e.left, row, params, rc)
            b = self.value(e.right, row, params, lc)
            if op in (operators.is_, operators.is_not):
                r = x.eq(a, b) if a is not None and b is not None else (a is None) == (b is None)
                return (r, x.no(r)) if op is operators.is_ else (x.no(r), r)
            if a is None or b is None:
                return unknown
            if op in (operators.eq, operators.ne, operators.lt, operators.le, operators.gt, operators.ge):
                r = op(a, b)
                return r, x.no(r)
        if isinstance(e, elements.UnaryExpression) and e.operator is operators.inv:
            t, f = self.cond(e.element, row, params)
            return f, t
        x.missing("SQL condition %s" % type(e).__name__)

    def matches(self, where, row, params):
        return bool(self.cond(where, row, params)[0])

    # -- statements
    def run(self, stmt, params):
        kind = stmt.__visit_name__
        if isinstance(params, dict):
            params = [params]
        if kind == "insert":
            return self.insert(stmt, params)
        many = params if params else [{}]
        if kind == "update":
            n = 0
            for p in many:
                n += self.update(stmt, p)
            return Result(rowcount=n)
        if kind == "delete":
            n = 0
            for p in many:
                n += self.delete(stmt, p)
            return Result(rowcount=n)
        if kind == "select":
            return self.select(stmt, many[0])
        self.x.missing("SQL statement %s" % kind)

    def check_row(self, table, row, skip=None):
        for c in table.columns:
            v = row.get(c.name)
            if v is None and not c.nullable:
                raise sa_exc.IntegrityError("NOT NULL %s" % c.name, {}, Exception())
            if c.unique:
                for o in self.rows(table):
                    if o is not skip and bool(self.x.eq(o[c.name], v)):
                        raise sa_exc.IntegrityError("UNIQUE %s" % c.name, {}, Exception())

    def insert(self, stmt, params):
        table = stmt.table
        base = {}
        for c, v in (stmt._values or {}).items():
            name = c if isinstance(c, str) else c.name
            base[name] = (table.columns[name], v)
        out = None
        for p in params or [{}]:
            row = {c.name: None for c in table.columns}
            for name, (c, v) in base.items():
                row[name] = self.value(v, {}, p, c)
            for k, v in p.items():
                if k not in table.columns:
                    raise sa_exc.CompileError("Unconsumed column names: %s" % k)
                row[k] = self.bind(table.columns[k], v)
            n = self.s.next_id.get(table.name, 0)
            pk = row.get("id")
            if pk is None:
                pk = row["id"] = max([n] + [r["id"] for r in self.rows(table)]) + 1
            self.check_row(table, row)
            self.rows(table).append(row)
            out = pk
        return Result(pk=(out,), rowcount=len(params or [1]))

    def update(self, stmt, p):
        table = stmt.table
        names = set()
        for c in (stmt._values or {}):
            names.add(c if isinstance(c, str) else c.name)
        n = 0
        bound = set(e.key for e in _binds(stmt.whereclause))
        for k in p:
            if k not in bound and k not in table.columns:
                raise sa_exc.CompileError("Unconsumed column names: %s" % k)
        for row in self.rows(table):
            if not self.matches(stmt.whereclause, row, p):
                continue
            n += 1
            new = dict(row)
            for c, v in (stmt._values or {}).items():
                col = table.columns[c if isinstance(c, str) else c.name]
                new[col.name] = self.value(v, row, p, col)
            for k, v in p.items():
                if k in table.columns and k not in bound:
                    new[k] = self.bind(table.columns[k], v)
            self.check_row(table, new, skip=row)
            row.update(new)
        return n

    def delete(self, stmt, p):
        table = stmt.table
        gone = [r for r in self.rows(table) if self.matches(stmt.whereclause, r, p)]
        self.s.tables[table.name] = [r for r in self.rows(table) if not any(r is g for g in gone)]
        if self.fk:
            for t in table.metadata.tables.values():
                for c in t.columns:
                    for f in c.foreign_keys:
                        if f.column.table is table:
                            for g in gone:
                                hit = [r for r in self.rows(t) if bool(r[c.name] == g[f.column.name])]
                                if hit and (f.ondelete or "").upper() != "CASCADE":
                                    raise sa_exc.IntegrityError("FOREIGN KEY", {}, Exception())
                                self.s.tables[t.name] = [r for r in self.rows(t) if not any(r is h for h in hit)]
        return len(gone)

    def select(self, stmt, p):
        cols = list(stmt.selected_columns)
        tables = list(set(c.table for c in cols if isinstance(c, sa.Column)))
        if len(tables) != 1 or not isinstance(tables[0], sa.Table) or stmt._limit_clause is not None or stmt._distinct or stmt._group_by_clauses:
            self.x.missing("SQL select form")
        rows = list(self.rows(tables[0]))
        if stmt._order_by_clauses and [getattr(c, "name", None) for c in stmt._order_by_clauses] != ["id"]:
            self.x.missing("SQL order by")
        names = [c.name for c in cols]
        return Result([Row(names, [self.result(c, self.value(c, r, p)) for c in cols]) for r in rows if self.matches(stmt.whereclause, r, p)])


def _binds(e):
    if e is None:
        return []
    from sqlalchemy.sql import visitors
    return [b for b in visitors.iterate(e) if isinstance(b, elements.BindParameter)]


class Database:
    """One database that survives restarts of the gateway."""
    def __init__(self, x, persistent=False):
        self.x = x
        self.persistent = persistent
        self.store = Store()
        self.commits = 0
        self.hook = None          # hook(kind): may raise
        self.pending = []
        self.patch = Patch()
        self.real = None
        self.ops = 0
        if persistent:
            if x.symbolic:
                self.url = "sqlite:////scratch/gateway.sqlite"
            else:
                d = tempfile.mkdtemp(prefix="symx-db-")
                _scratch.append(d)
                self.url = "sqlite:///%s/gateway.sqlite" % d
        else:
            self.url = "sqlite:///:memory:"

    def op(self, kind):
        self.ops += 1
        if self.hook is not None:
            r = self.hook(kind)
            if r:
                raise _fault(kind)

    def __enter__(self):
        import dask_gateway_server.backends.db_base as m
        self.m = m
        real_create, real_listens, real_all = sa.create_engine, sa.event.listens_for, m.metadata.create_all
        if self.x.symbolic:
            def create_engine(url, **kw):
                return FakeEngine(self, url)

            def listens_for(target, name, *a, **kw):
                if isinstance(target, FakeEngine):
                    def deco(f):
                        target.listeners.setdefault(name, []).append(f)
                        return f
                    return deco
                return real_listens(target, name, *a, **kw)

            def create_all(bind, **kw):
                if not isinstance(bind, FakeEngine):
                    return real_all(bind, **kw)
                bind.connect_once()
                self.flush_pending(None)
            self.patch.set(sa, "create_engine", create_engine)
            self.patch.set(sa.event, "listens_for", listens_for)
            self.patch.set(m.metadata, "create_all", create_all)
        else:
            def create_engine(url, **kw):
                self.real = real_create(url, **kw)
                return self.real

            def create_all(bind, **kw):
                real_all(bind, **kw)
                self.flush_pending(bind)
                sa.event.listen(bind, "begin", lambda conn: self.op("begin"))
                sa.event.listen(bind, "commit", lambda conn: self.op("commit"))
                sa.event.listen(bind, "before_cursor_execute", lambda *a: self.op("execute"))
            self.patch.set(sa, "create_engine", create_engine)
            self.patch.set(m.metadata, "create_all", create_all)
        return self

    def __exit__(self, *a):
        self.patch.undo()
        if not self.x.symbolic and self.real is not None:
            self.real.dispose()

    # -- rows put there before the gateway starts
    def add(self, table, **kw):
        self.pending.append((table, kw))

    def flush_pending(self, bind):
        todo, self.pending = self.pending, []
        for name, kw in todo:
            table = getattr(self.m, name)
            if self.x.symbolic:
                it = Interp(self.x, self.store, True)
                row = {c.name: it.bind(c, kw[c.name]) if kw.get(c.name) is not None else None for c in table.columns}
                self.store.tables.setdefault(name, []).append(row)
            else:
                with bind.begin() as conn:
                    conn.execute(table.insert().values(**kw))

    # -- what is committed now, in stored form (enums as ints, JSON decoded)
    def rows(self, name):
        table = getattr(self.m, name)
        if self.x.symbolic:
            rows = [dict(r) for r in self.store.tables.get(name, [])]
        else:
            hook, self.hook = self.hook, None
            ops = self.ops
            with self.real.connect() as c:
                rows = [dict(r._mapping) for r in c.execute(sa.text("select * from %s order by id" % name))]
            self.hook, self.ops = hook, ops
        for r in rows:
            for c in table.columns:
                if type(c.type).__name__ == "_JSON" and r[c.name] is not None:
                    v = r[c.name]
                    if self.x.symbolic:
                        from symx import models as M
                        r[c.name] = M.m_loads(v)
                    else:
                        r[c.name] = json.loads(v)
        return rows


CLUSTER_DEFAULTS = dict(username="alice", options={}, config={}, state={}, count=0, scheduler_address="", dashboard_address="",
                        api_address="", start_time=0, stop_time=None)
WORKER_DEFAULTS = dict(state={}, start_time=0, stop_time=None, close_expected=0)


def add_cluster(db, id, name, status, target, token=None, tls=b"cert;key", **kw):
    d = dict(CLUSTER_DEFAULTS, id=id, name=name, status=status, target=target, token=(token or "tok%d" % id).encode("utf8"), tls_credentials=tls)
    d.update(kw)
    db.add("clusters", **d)


def add_worker(db, id, name, cluster_id, status, target, **kw):
    d = dict(WORKER_DEFAULTS, id=id, name=name, cluster_id=cluster_id, status=status, target=target)
    d.update(kw)
    db.add("workers", **d)


class RecordingQueue:
    """stands for WorkQueue where only the puts matter"""
    def __init__(self, x):
        self.x, self.items, self.delayed = x, [], []

    def put(self, item):
        self.items.append(item)

    def put_after(self, item, delay):
        self.delayed.append((item, delay))

    def put_backoff(self, item):
        self.delayed.append((item, None))

    def has(self, item):
        return any(i is item for i in self.items)

    def reset_backoff(self, item):
        pass

    def task_done(self, item):
        pass

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.x.missing("queue.%s" % k)


class RecordingProxy:
    def __init__(self, x, calls=None):
        self.x, self.calls = x, calls if calls is not None else []
        self.address, self.prefix, self.tls_cert = "gw:8000", "", ""

    async def add_route(self, kind=None, sni=None, path=None, target=None):
        self.calls.append(("add", kind, sni, path, target))

    async def remove_route(self, kind=None, sni=None, path=None):
        self.calls.append(("remove", kind, sni, path))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self.x.missing("proxy.%s" % k)


def backend_class():
    """a DBBackendBase whose job operations are recorded and may fail as the harness says"""
    import dask_gateway_server.backends.db_base as m
    if "cls" in _cache:
        return _cache["cls"]

    class TestBackend(m.DBBackendBase):
        calls = None
        script = None         # script(op, obj) -> value / raises

        def _do(self, op, obj):
            self.calls.append((op, obj))
            return self.script(op, obj) if self.script is not None else None

        async def do_setup(self):
            pass

        async def do_cleanup(self):
            pass

        async def do_start_cluster(self, cluster):
            r = self._do("start_cluster", cluster)
            if hasattr(r, "__await__"):
                r = await r
            for s in r or []:
                yield s

        async def do_stop_cluster(self, cluster):
            r = self._do("stop_cluster", cluster)
            if hasattr(r, "__await__"):
                await r

        async def do_check_clusters(self, clusters):
            r = self._do("check_clusters", list(clusters))
            return await r if hasattr(r, "__await__") else (r if r is not None else [True] * len(clusters))

        async def do_start_worker(self, worker):
            r = self._do("start_worker", worker)
            if hasattr(r, "__await__"):
                r = await r
            for s in r or []:
                yield s

        async def do_stop_worker(self, worker):
            r = self._do("stop_worker", worker)
            if hasattr(r, "__await__"):
                await r

        async def do_check_workers(self, workers):
            r = self._do("check_workers", list(workers))
            return await r if hasattr(r, "__await__") else (r if r is not None else [True] * len(workers))
    _cache["cls"] = TestBackend
    return TestBackend


_cache = {}


def make_backend(x, db, script=None, **traits):
    """a backend on database db, set up except for its background tasks"""
    cls = backend_class()
    b = cls()
    b.calls = []
    b.script = script
    from symx.env import set_traits
    t = dict(db_url=db.url, db_encrypt_keys=[], cluster_heartbeat_timeout=30.0, cluster_start_timeout=60.0, worker_start_timeout=60.0,
             worker_start_failure_limit=3, check_timeouts_period=20.0, cluster_status_period=30.0, worker_status_period=30.0, api_url="http://gw/api")
    t.update(traits)
    set_traits(b, **t)
    b.queue = RecordingQueue(x)
    b.proxy = RecordingProxy(x)
    b.db = db.m.DataManager(url=db.url, encrypt_keys=t["db_encrypt_keys"])
    return b


def make_backend_of(x, cls, **traits):
    """an instance of a real backend without its database and background tasks"""
    from symx.env import set_traits
    b = cls()
    t = dict(db_encrypt_keys=[], api_url="http://gw/api", cluster_heartbeat_period=15)
    t.update(traits)
    set_traits(b, **t)
    return b


def VALID(J):
    out = []
    for s in (J.CREATED, J.SUBMITTED, J.RUNNING):
        out += [(s, J.RUNNING), (s, J.STOPPED), (s, J.FAILED)]
    out += [(J.CLOSING, J.STOPPED), (J.CLOSING, J.FAILED), (J.STOPPED, J.STOPPED), (J.FAILED, J.FAILED)]
    return out


def fake_encryption(x, m, p):
    """an encryption that only marks what went through it (C13 checks the use of the real one)"""
    class F:
        def __init__(self, keys):
            assert len(keys)

        def encrypt(self, b):
            return b"enc:" + b

        def decrypt(self, b):
            assert b[:4] == b"enc:"
            return b[4:]
    p.set(m, "MultiFernet", F)
    p.set(m, "Fernet", lambda k: k)


C_FIELDS = ("id", "name", "username", "status", "target", "count", "options", "config", "state", "scheduler_address", "dashboard_address",
            "api_address", "start_time", "stop_time")
W_FIELDS = ("id", "name", "status", "target", "state", "start_time", "stop_time", "close_expected")


def same_as_committed(x, db, dm, enc=b""):
    """one condition: the objects in memory are exactly the committed rows, under every index"""
    crows, wrows = db.rows("clusters"), db.rows("workers")
    cs = list(dm.id_to_cluster.values())
    if len(cs) != len(crows) or len(dm.name_to_cluster) != len(crows):
        return False
    out = []
    n_user = 0
    for v in dm.username_to_clusters.values():
        n_user += len(v)
    if n_user != len(crows) or sum(len(c.workers) for c in cs) != len(wrows):
        return False
    for r in crows:
        c = x.get(dm.id_to_cluster, r["id"])
        if c is None or dm.get_cluster(r["name"]) is not c:
            return False
        mine = x.get(dm.username_to_clusters, r["username"])
        if mine is None or x.get(mine, r["name"]) is not c:
            return False
        for f in C_FIELDS:
            v = getattr(c, f)
            out.append(x.eq(dict(v) if f == "config" else v, r[f]))
        out.append(x.eq(enc + c.token.encode("utf8"), r["token"]))
        out.append(x.eq(enc + c.tls_cert + b";" + c.tls_key, r["tls_credentials"]))
    for r in wrows:
        c = x.get(dm.id_to_cluster, r["cluster_id"])
        w = x.get(c.workers, r["name"]) if c is not None else None
        if w is None or w.cluster is not c:
            return False
        out += [x.eq(getattr(w, f), r[f]) for f in W_FIELDS]
    return x.all(*out)
