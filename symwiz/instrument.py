"""Import hook: loads modules from their current source, rewritten so that the
operations CPython would perform in C on the operands go through `rt`.

The rewriting is purely local and meaning preserving on ordinary values:
    f(a)          -> __sv__.call(f, a)
    o.m(a)        -> __sv__.mcall(o, "m", a)
    o[k]          -> __sv__.getitem(o, k)          (loads, in function bodies)
    o[k] = v      -> __sv__.setitem(o, k, v)       (single target)
    a in b        -> __sv__.contains(a, b)
    a is b        -> __sv__.is_(a, b)              (not against None)
    f"..."        -> __sv__.fstr(...)
    a % b         -> __sv__.mod(a, b)
    a | b (& - ^) -> __sv__.binop(op, a, b)        (and the assignments |= ...)
    a == b (...)  -> __sv__.compare(op, a, b)
    {..}          -> __sv__.set_ / dict_           (displays and comprehensions)
    def f: ...    -> def f: __sv__.enter("mod:f"); ...
    loops         -> __sv__.loop() first in the body
    return v      -> return __sv__.genuine(v)      (in __bool__, __len__, __index__)
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

_SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "TypeVar", "cast", "overload"}


_OPS = {ast.BitOr: "bin_or", ast.BitAnd: "bin_and", ast.Sub: "bin_sub", ast.BitXor: "bin_xor"}


def _sv(name: str):
    return ast.Attribute(ast.Name("__sv__", ast.Load()), name, ast.Load())


def _svcall(name, args, kws=()):
    return ast.Call(_sv(name), list(args), list(kws))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname: str):
        self.mod = modname
        self.depth = 0
        self.names: list[str] = []

    # -- containers of code
    def _fn(self, node):
        node.decorator_list = list(node.decorator_list)
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        self.names.append(node.name)
        self.depth += 1
        body = [self.visit(s) for s in node.body]
        flat = []
        for s in body:
            flat.extend(s if isinstance(s, list) else [s])
        self.depth -= 1
        qual = f"{self.mod}:{'.'.join(self.names)}"
        self.names.pop()
        at = 0
        if flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant):
            at = 1
        flat.insert(at, ast.Expr(_svcall("enter", [ast.Constant(qual)])))
        node.body = flat
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        self.names.append(node.name)
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        self.names.pop()
        return node

    # -- annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_TypeAlias(self, node):
        return node

    def visit_Global(self, node):
        return node

    # -- statements
    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and self.names and self.names[-1] in ("__bool__", "__len__", "__index__"):
            # the interpreter wants a genuine bool/int from these
            node.value = _svcall("genuine", [node.value])
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if (
            self.depth
            and len(node.targets) == 1
            and isinstance(node.targets[0], ast.Subscript)
            and not isinstance(node.targets[0].slice, ast.Slice)
        ):
            t = node.targets[0]
            # Python evaluates the value before the target's parts
            return ast.Expr(
                _svcall(
                    "setitem_",
                    [node.value, self.visit(t.value), self.visit(t.slice)],
                )
            )
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_Delete(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                return ast.Expr(_svcall("delitem", [self.visit(t.value), self.visit(t.slice)]))
        return self.generic_visit(node)

    def _loop(self, node):
        self.generic_visit(node)
        if self.depth:
            node.body = [ast.Expr(_svcall("loop", [])), *node.body]
        return node

    visit_For = _loop
    visit_While = _loop

    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        return node

    def visit_ExceptHandler(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Name):
            if f.id in _SKIP:
                return ast.Call(f, args, kws)
            return _svcall("call", [f, *args], kws)
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            if f.attr.startswith("__") and not f.attr.endswith("__"):
                return _svcall("call", [ast.Attribute(obj, f.attr, ast.Load()), *args], kws)
            return _svcall("mcall", [obj, ast.Constant(f.attr), *args], kws)
        return _svcall("call", [self.visit(f), *args], kws)

    def visit_Subscript(self, node):
        if not self.depth or not isinstance(node.ctx, ast.Load):
            if self.depth:
                self.generic_visit(node)
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            key = ast.Call(
                _sv("slice"),
                [self.visit(x) if x is not None else none for x in (sl.lower, sl.upper, sl.step)],
                [],
            )
        else:
            key = self.visit(sl)
        return _svcall("getitem", [self.visit(node.value), key])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
                return node
            return node
        op, a, b = node.ops[0], node.left, node.comparators[0]
        cmp = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}.get(type(op))
        if cmp is not None:
            if isinstance(a, ast.Constant) or isinstance(b, ast.Constant):
                return node
            return _svcall("compare", [_sv("cmp_" + cmp), a, b])
        if isinstance(op, (ast.In, ast.NotIn)):
            r = _svcall("contains", [a, b])
        elif isinstance(op, (ast.Is, ast.IsNot)):
            if any(isinstance(x, ast.Constant) and x.value is None for x in (a, b)):
                return node
            r = _svcall("is_", [a, b])
        else:
            return node
        if isinstance(op, (ast.NotIn, ast.IsNot)):
            r = ast.UnaryOp(ast.Not(), r)
        return r

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _svcall("mod", [node.left, node.right])
        op = _OPS.get(type(node.op))
        if op and self.depth and not isinstance(node.left, ast.Constant) and not isinstance(node.right, ast.Constant):
            return _svcall("binop", [_sv(op), node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        node.target = self.visit(node.target)
        node.value = self.visit(node.value)
        op = _OPS.get(type(node.op))
        t = node.target
        if op and self.depth and not isinstance(node.value, ast.Constant):
            o = t.value if isinstance(t, ast.Attribute) else t
            if isinstance(o, ast.Name):
                load = ast.Name(t.id, ast.Load()) if o is t else ast.Attribute(ast.Name(o.id, ast.Load()), t.attr, ast.Load())
                return ast.Assign([t], _svcall("inplace", [_sv(op), load, node.value]))
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return _svcall("set_", [ast.List(node.elts, ast.Load())]) if self.depth else node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _svcall("set_", [ast.ListComp(node.elt, node.generators)]) if self.depth else node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return _svcall("dict_", [ast.ListComp(pair, node.generators)]) if self.depth else node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(None), _svcall("unpack", [v])], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Tuple([k], ast.Load()), v], ast.Load()))
        return _svcall("dict_display", items)

    def visit_JoinedStr(self, node):
        parts: list[ast.expr] = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                assert isinstance(v, ast.FormattedValue)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()
                    )
                )
        return _svcall("fstr", parts)


def rewrite(source: str, filename: str, modname: str):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as fp:
            data = fp.read()
        return rewrite(importlib.util.decode_source(data), path, fullname)

    def exec_module(self, module):
        module.__dict__["__sv__"] = rt
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots: dict[str, str], skip: tuple[str, ...]):
        self.roots, self.skip = roots, skip
        self.loaded: list[str] = []

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        if any(fullname == s or fullname.startswith(s + ".") for s in self.skip):
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            fn, sub = init, [base]
        elif os.path.isfile(base + ".py"):
            fn, sub = base + ".py", None
        else:
            return None
        self.loaded.append(fullname)
        return importlib.util.spec_from_file_location(
            fullname, fn, loader=_Loader(fullname, fn), submodule_search_locations=sub
        )


def install(src: str = "/repo/src", harness_root: str | None = None) -> Finder:
    sys.dont_write_bytecode = True
    roots = {"wizard": src}
    if harness_root:
        roots["harness"] = harness_root
    f = Finder(roots, ("wizard.antlr4",))
    sys.meta_path.insert(0, f)
    sys.path.insert(0, src)
    venv = "/opt/venv/lib/python3.12/site-packages"
    if venv not in sys.path:
        sys.path.append(venv)
    return f
