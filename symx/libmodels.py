"""Models of third-party constructors that format their arguments."""
from aiohttp import web

from . import models as M
from .values import has_sym


def _exc(cls):
    def make(*a, reason=None, **kw):
        if has_sym(reason):
            e = cls(*a, reason="symbolic", **kw)
            e._reason = reason
            return e
        return cls(*a, reason=reason, **kw)
    return make


def install():
    todo = [web.HTTPException]
    while todo:
        c = todo.pop()
        todo.extend(c.__subclasses__())
        if c.status_code >= 400:
            M.FUNCS[c] = _exc(c)


# functions of pure Python libraries that run instrumented on symbolic arguments
COPIES = {
    "urllib.parse": ["urlparse", "urlsplit"],
    "distributed.comm.addressing": ["unparse_host_port", "parse_host_port", "parse_address"],
}


def _copy(name):
    import ast
    import importlib
    import types
    from .instrument import HOOKS, Rewrite
    real = importlib.import_module(name)
    with open(real.__file__) as f:
        tree = ast.parse(f.read(), real.__file__)
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            node.decorator_list = [d for d in node.decorator_list if "cache" not in ast.dump(d)]
    tree = Rewrite(name).visit(tree)
    ast.fix_missing_locations(tree)
    mod = types.ModuleType(name + "_instrumented")
    mod.__package__ = real.__package__
    mod.__dict__.update(HOOKS)
    exec(compile(tree, real.__file__, "exec"), mod.__dict__)
    return mod


def _lazy(name, fn):
    state = {}

    def call(*a, **kw):
        if "mod" not in state:
            state["mod"] = _copy(name)
        return getattr(state["mod"], fn)(*a, **kw)
    return call


def install_copies(names=("urllib.parse",)):
    import importlib
    for name in names:
        fns = COPIES[name]
        real = importlib.import_module(name)
        for fn in fns:
            M.FUNCS[getattr(real, fn)] = _lazy(name, fn)
