"""AST rewriting of /repo's Python modules and the import hook that applies it."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import models as M

REPO = os.environ.get("SYMX_REPO", "/repo")
ROOTS = {
    "dask_gateway_server": os.path.join(REPO, "dask-gateway-server", "dask_gateway_server"),
    "dask_gateway": os.path.join(REPO, "dask-gateway", "dask_gateway"),
}
SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "breakpoint"}
HOOKS = {
    "_symx_call": M.call, "_symx_callm": M.callm, "_symx_getitem": M.getitem, "_symx_setitem": M.setitem,
    "_symx_delitem": M.delitem, "_symx_in": M.contains, "_symx_is": M.compare_is, "_symx_mod": M.mod,
    "_symx_fstr": M.fstr, "_symx_mkset": M.mkset, "_symx_mkdict": M.mkdict, "_symx_enter": M.enter,
}


def N(name):
    return ast.Name(id=name, ctx=ast.Load())


def C(name, *args):
    return ast.Call(func=N(name), args=list(args), keywords=[])


def K(v):
    return ast.Constant(value=v)


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.tmp = 0

    # ---- functions: record entry; leave annotations and class keywords alone
    def _func(self, node):
        self.stack.append(node.name)
        qual = self.mod + ":" + ".".join(self.stack)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._body(node.body)
        stmt = ast.Expr(C("_symx_enter", K(qual)))
        i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)) else 0
        node.body.insert(i, stmt)
        self.stack.pop()
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self._body(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # ---- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return C("_symx_in", a, b)
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), C("_symx_in", a, b))
            if isinstance(op, (ast.Is, ast.IsNot)) and not (isinstance(b, ast.Constant) and b.value is None):
                r = C("_symx_is", a, b)
                return ast.UnaryOp(ast.Not(), r) if isinstance(op, ast.IsNot) else r
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return C("_symx_mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = K(None if v.conversion < 0 else chr(v.conversion))
                spec = self.visit(v.format_spec) if v.format_spec is not None else K("")
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return C("_symx_fstr", *parts)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return C("_symx_getitem", node.value, self._slice(node.slice))
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return C("slice", s.lower or K(None), s.upper or K(None), s.step or K(None))
        return s

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and (f.id in SKIP_CALLS or f.id.startswith("_symx")):
            self.generic_visit(node)
            return node
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(f, ast.Attribute) and not (f.attr.startswith("__") and not f.attr.endswith("__")):
            obj = self.visit(f.value)
            return ast.Call(N("_symx_callm"), [obj, K(f.attr)] + node.args, node.keywords)
        return ast.Call(N("_symx_call"), [self.visit(f)] + node.args, node.keywords)

    def visit_Set(self, node):
        self.generic_visit(node)
        return C("_symx_mkset", ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return C("_symx_mkset", ast.ListComp(node.elt, node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            # {**a, k: v}: build left to right
            expr = C("_symx_mkdict", ast.List([], ast.Load()))
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(ast.Starred(C("list", ast.Call(ast.Attribute(v, "items", ast.Load()), [], [])), ast.Load()))
                else:
                    parts.append(ast.Tuple([k, v], ast.Load()))
            return C("_symx_mkdict", ast.List(parts, ast.Load()))
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return C("_symx_mkdict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return C("_symx_mkdict", ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    # ---- statements with subscript targets
    def _t(self):
        self.tmp += 1
        return "_symx_t%d" % self.tmp

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(C("_symx_setitem", self.visit(t.value), self.visit(self._slice(t.slice)), node.value))
        if len(node.targets) > 1 and any(isinstance(t, ast.Subscript) for t in node.targets):
            tmp = self._t()
            out = [ast.Assign([ast.Name(tmp, ast.Store())], node.value)]
            for t in node.targets:
                out.extend(self._as_list(self.visit(ast.Assign([t], N(tmp)))))
            return out
        if any(isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Subscript) for e in t.elts) for t in node.targets) and len(node.targets) == 1:
            t = node.targets[0]
            names, post = [], []
            for e in t.elts:
                if isinstance(e, ast.Subscript):
                    tmp = self._t()
                    names.append(ast.Name(tmp, ast.Store()))
                    post.extend(self._as_list(self.visit(ast.Assign([e], N(tmp)))))
                else:
                    names.append(self.visit(e))
            return [ast.Assign([ast.Tuple(names, ast.Store())], node.value)] + post
        node.targets = [self.visit(t) for t in node.targets]
        return node

    @staticmethod
    def _as_list(r):
        return r if isinstance(r, list) else [r]

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            o, k = self._t(), self._t()
            cur = C("_symx_getitem", N(o), N(k))
            val = self.visit(node.value)
            new = C("_symx_mod", cur, val) if isinstance(node.op, ast.Mod) else ast.BinOp(cur, node.op, val)
            return [ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)),
                    ast.Assign([ast.Name(k, ast.Store())], self.visit(self._slice(t.slice))),
                    ast.Expr(C("_symx_setitem", N(o), N(k), new))]
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(C("_symx_delitem", self.visit(t.value), self.visit(self._slice(t.slice)))))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out

    def visit_Global(self, node):
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewrite(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


def locate(name):
    parts = name.split(".")
    root = ROOTS.get(parts[0])
    if root is None:
        return None
    p = os.path.join(root, *parts[1:])
    if os.path.isfile(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), p
    if os.path.isfile(p + ".py"):
        return p + ".py", None
    return None


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, instrument):
        self.instrument = instrument

    def find_spec(self, name, path=None, target=None):
        loc = locate(name)
        if loc is None:
            return None
        file, pkg = loc
        loader = Loader(name, file) if self.instrument else None
        return importlib.util.spec_from_file_location(name, file, loader=loader, submodule_search_locations=[pkg] if pkg else None)


def install(instrument=True):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(instrument))
