"""Import hook: loads the code under check from source and rewrites calls,
membership, identity, f-strings, % and subscripts so that symbolic values pass
through.  The rewrite is regenerated from the source files on every run."""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from sx import models

ROOTS = {}          # top-level package name -> directory holding it
SOURCES = {}        # module name -> source path
IMPORT_MAP = {}     # module name -> replacement module


class Rewriter(ast.NodeTransformer):
    def _n(self, name, node):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)

    def _call(self, fn, args, node):
        return ast.copy_location(ast.Call(func=self._n(fn, node), args=args, keywords=[]), node)

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        outer, self.special = getattr(self, "special", None), node.name if node.name in ("__bool__", "__len__") else None
        was, self.inside = getattr(self, "inside", False), True
        node.body = [self.visit(s) for s in node.body]
        self.special, self.inside = outer, was
        return node

    def visit_Lambda(self, node):
        outer, self.special = getattr(self, "special", None), None
        self.generic_visit(node)
        self.special = outer
        return node

    def visit_Return(self, node):
        """The interpreter itself looks at what __bool__ and __len__ return."""
        self.generic_visit(node)
        if getattr(self, "special", None) and node.value is not None:
            node.value = self._call("__sx_plain__", [node.value], node)
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        was, self.inside = getattr(self, "inside", False), False
        node.body = [self.visit(s) for s in node.body]
        self.inside = was
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "__import__"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=self._n("__sx_call__", node), args=[node.func, *node.args], keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = {ast.In: "__sx_in__", ast.NotIn: "__sx_notin__", ast.Is: "__sx_is__", ast.IsNot: "__sx_isnot__"}
        if len(node.ops) == 1:
            fn = ops.get(type(node.ops[0]))
            if fn is None:
                return node
            right = node.comparators[0]
            if fn in ("__sx_is__", "__sx_isnot__") and isinstance(right, ast.Constant) and right.value is None:
                return node
            return self._call(fn, [node.left, right], node)
        return node

    def visit_BoolOp(self, node):
        """a and b, where b only compares names: one condition, not two branches."""
        free = [plain(v) for v in node.values]
        self.generic_visit(node)
        if not getattr(self, "inside", False):
            return node
        fn = "__sx_and__" if isinstance(node.op, ast.And) else "__sx_or__"
        out = [node.values[0]]
        for v, f in zip(node.values[1:], free[1:]):
            if f:
                args = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
                out[-1] = self._call(fn, [out[-1], ast.copy_location(ast.Lambda(args=args, body=v), node)], node)
            else:
                out.append(v)
        if len(out) == 1:
            return out[0]
        node.values = out
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.fix_missing_locations(self._call("__sx_fstr__", parts, node))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__sx_set__", [ast.copy_location(ast.Tuple(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return self._call("__sx_set__", [gen], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._call("__sx_getitem__", [node.value, node.slice], node)
        return node


def plain(node):
    """A comparison of names, attributes and constants."""
    if not isinstance(node, ast.Compare) or len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        return False
    for x in (node.left, node.comparators[0]):
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, (ast.Name, ast.Constant)):
            return False
    return True


HELPERS = {
    "__sx__": True,
    "__sx_call__": models.sx_call,
    "__sx_in__": models.sx_in,
    "__sx_notin__": models.sx_notin,
    "__sx_is__": models.sx_is,
    "__sx_isnot__": models.sx_isnot,
    "__sx_fstr__": models.sx_fstr,
    "__sx_mod__": models.sx_mod,
    "__sx_getitem__": models.sx_getitem,
    "__sx_set__": models.m_set,
    "__sx_and__": models.sx_and,
    "__sx_or__": models.sx_or,
    "__sx_plain__": models.sx_plain,
}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if fromlist:
            if name in IMPORT_MAP:
                return IMPORT_MAP[name]
            subs = [f"{name}.{f}" for f in fromlist if f"{name}.{f}" in IMPORT_MAP]
            if subs:
                mod = builtins.__import__(name, globals, locals, fromlist, level)
                return _Overlay(mod, {s.rsplit(".", 1)[1]: IMPORT_MAP[s] for s in subs})
        elif name in IMPORT_MAP:
            top = name.split(".")[0]
            if top == name:
                return IMPORT_MAP[name]
            mod = builtins.__import__(name, globals, locals, fromlist, level)
            return _Overlay(mod, {name.split(".")[1]: IMPORT_MAP[name]})
    return builtins.__import__(name, globals, locals, fromlist, level)


class _Overlay:
    def __init__(self, mod, extra):
        self.__dict__["_m"] = mod
        self.__dict__.update(extra)

    def __getattr__(self, n):
        return getattr(self.__dict__["_m"], n)


_BUILTINS = dict(vars(builtins))
_BUILTINS["__import__"] = _import


def compile_source(src, filename):
    tree = ast.parse(src, filename)
    tree = ast.fix_missing_locations(Rewriter().visit(tree))
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fh:
            src = fh.read()
        code = compile_source(src, self.path)
        models.INSTRUMENTED.add(module.__name__)
        SOURCES[module.__name__] = self.path
        module.__dict__.update(HELPERS)
        module.__dict__["__builtins__"] = _BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in ROOTS:
            return None
        import os
        base = os.path.join(ROOTS[top], *fullname.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p))
        return None


def load_as(name, path):
    """Load one source file as a rewritten module under a chosen name."""
    spec = importlib.util.spec_from_file_location(name, path, loader=Loader(path))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def install(roots):
    ROOTS.update(roots)
    sys.meta_path.insert(0, Finder())
