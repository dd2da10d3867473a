"""What a harness sees, on symbolic inputs.  `replay.Concrete` is the same
interface on one assignment, for the unmodified code."""

from __future__ import annotations

import sys
import types
from typing import Any

import z3

from .engine import Engine, PathAbort, Unsupported
from .values import (
    DOMAINS,
    F64,
    OpaqueStr,
    SymBool,
    SymFloat,
    SymInt,
    SymStr,
    _fval,
    _z,
    fp_to_py,
    in_ranges,
    is_sym,
    kind,
    mkbool,
    zb,
    zf,
    zi,
)


class HarnessError(BaseException):
    pass


class Symbolic:
    symbolic = True

    def __init__(self, engine: Engine):
        self.e = engine
        self.path_covers: list[str] = []
        self._parsed: dict[str, Any] = {}

    def begin(self) -> None:
        self.path_covers = []
        forget()

    # -- inputs
    def _name(self, n: str) -> str:
        if n in self.e.inputs:
            raise HarnessError(f"input {n!r} declared twice")
        return n

    def int(self, name: str, lo: int | None = None, hi: int | None = None):
        n = self._name(name)
        v = z3.Int(n)
        self.e.inputs[n] = lambda m: m.eval(v, model_completion=True).as_long()
        if lo is not None:
            self.e.assume(v >= lo)
        if hi is not None:
            self.e.assume(v <= hi)
        return SymInt(v)

    def int64(self, name: str):
        """An integer of 64 bits, whose conversion to and comparison with floats
        is exact."""
        n = self._name(name)
        bv, v = z3.BitVec(n + ".bv", 64), z3.Int(n)
        self.e.inputs[n] = lambda m: m.eval(bv, model_completion=True).as_signed_long()
        self.e.assume(v == z3.BV2Int(bv, True))
        self.e.exact[v.get_id()] = v, bv
        return SymInt(v)

    def bool(self, name: str):
        n = self._name(name)
        v = z3.Bool(n)
        self.e.inputs[n] = lambda m: z3.is_true(m.eval(v, model_completion=True))
        return SymBool(v)

    def float(self, name: str, finite: bool = True):
        n = self._name(name)
        v = z3.FP(n, F64)
        self.e.inputs[n] = lambda m: fp_to_py(m.eval(v, model_completion=True)).hex()
        if finite:
            self.e.assume(z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v))))
        return SymFloat(v)

    def str(self, name: str, maxlen: int, domain: str = "ascii", minlen: int = 0, chars: str | None = None):
        n = self._name(name)
        length = minlen
        if maxlen > minlen:
            lv = z3.Int(n + ".len")
            length = minlen + self.e.choose(lv, maxlen - minlen + 1)
        cs = [z3.Int(f"{n}[{i}]") for i in range(length)]
        self.e.inputs[n] = lambda m: [m.eval(c, model_completion=True).as_long() for c in cs]
        if chars is not None:
            dom = [(ord(c), ord(c)) for c in sorted(set(chars))]
        else:
            dom = DOMAINS[domain]
        for c in cs:
            self.e.assume(in_ranges(c, dom))
        return SymStr.make(cs)

    def choice(self, name: str, options):
        """One of `options` (any Python objects), all explored."""
        options = list(options)
        n = self._name(name)
        v = z3.Int(n)
        if len(options) == 1:
            k = 0
        else:
            k = self.e.choose(v, len(options))
        self.e.inputs[n] = lambda m: k
        return options[k]

    # -- constraints
    def assume(self, cond) -> None:
        self.e.assume(zb(cond))

    def check(self, cond, msg: str) -> None:
        self.e.check(zb(cond), msg)

    def fail(self, msg: str) -> None:
        self.e.fail(msg)

    def cover(self, label: str) -> None:
        self.path_covers.append(label)
        c = self.e.stats.covers
        c[label] = c.get(label, 0) + 1

    # -- combinators that do not fork
    def all(self, *conds):
        return mkbool(z3.And(*[zb(c) for c in conds])) if conds else True

    def any(self, *conds):
        return mkbool(z3.Or(*[zb(c) for c in conds])) if conds else False

    def no(self, cond):
        return mkbool(z3.Not(zb(cond)))

    def iff(self, a, b):
        return mkbool(zb(a) == zb(b))

    def implies(self, a, b):
        return mkbool(z3.Implies(zb(a), zb(b)))

    def ite(self, c, a, b):
        """if-then-else on numbers/bools of the same kind"""
        if not is_sym(c):
            return a if c else b
        if kind(a) == "b" and kind(b) == "b":
            return mkbool(z3.If(zb(c), zb(a), zb(b)))
        return SymInt(z3.simplify(z3.If(zb(c), zi(a), zi(b))))

    def same(self, a, b):
        """same type and same value (NaN is the same as NaN)."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b) or set(a) != set(b):
                return False
            return self.all(*[self.same(a[k], b[k]) for k in a])
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            raise Unsupported("comparison of an opaque text")
        ka, kb = kind(a), kind(b)
        if not ka and not kb:
            return a is b or bool(type(a) is type(b) and a == b)
        if ka != kb:
            return False
        if ka == "f":
            x, y = zf(a), zf(b)
            return mkbool(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
        r = a == b
        return r if isinstance(r, bool) else mkbool(zb(r))

    def concrete(self, x):
        """x as a plain Python value (forks over the feasible ones)."""
        if not is_sym(x):
            return x
        k = kind(x)
        if k == "b":
            return bool(x)
        if k == "i":
            return int(self.e.concretise(x.t))
        if k == "s":
            return "".join(chr(self.e.concretise(_z(c))) for c in x.c)
        raise Unsupported("concretising a float")

    def parse(self, script: str, subs: dict[str, Any] | None = None):
        """Parse tree of a script by the real parser (kept between paths).
        `subs` maps texts of tokens of the script to the (symbolic) texts these
        tokens have instead; concretely they are replaced in the script before
        it is parsed."""
        from wizard.utils import make_parse_wizard_context

        if script not in self._parsed:
            tree = make_parse_wizard_context(script)
            tokens: dict[str, list[Any]] = {}
            todo, nodes = [tree], []
            while todo:
                node = todo.pop()
                nodes.append((node, dict(node.__dict__), list(getattr(node, "children", None) or ()), getattr(node, "exception", None)))
                todo.extend(getattr(node, "children", None) or ())
                sym = getattr(node, "symbol", None)
                if sym is not None:
                    tokens.setdefault(sym.text, []).append(sym)
            self._parsed[script] = tree, tokens, nodes
        tree, tokens, nodes = self._parsed[script]
        # as if parsed again: what the interpreter left on the tree is gone
        for node, attrs, children, exception in nodes:
            if children:
                node.children[:] = children
            if hasattr(node, "exception"):
                node.exception = exception
            node.__dict__.clear()
            node.__dict__.update(attrs)
        if subs:
            _patch_get_text()
            for k, v in subs.items():
                if k not in tokens:
                    raise HarnessError(f"no token {k!r} in {script!r}")
                for t in tokens[k]:
                    t.text = v
        return tree


_MODULES: dict[str, list[tuple[Any, Any]]] = {}


def _holders(mod):
    """what a module keeps between calls: (object, shallow copy)"""
    todo = [v for k, v in vars(mod).items() if not k.startswith("__")]
    seen = set()
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if type(v) in (dict, list, set):
            yield v, type(v)(v)
        elif hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
            yield v, None
        elif isinstance(v, type) and v.__module__ == mod.__name__:
            todo += [x for k, x in vars(v).items() if k not in ("__dict__", "__annotations__") and not k.startswith("_abc")]
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
            todo += list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())


def forget() -> None:
    """Every path starts in a fresh process: what the package kept at module or class level is reset."""
    for name, mod in list(sys.modules.items()):
        if (name == "wizard" or name.startswith("wizard.")) and not name.startswith("wizard.antlr4") and name not in _MODULES:
            _MODULES[name] = list(_holders(mod))
    for kept in _MODULES.values():
        for v, was in kept:
            if was is None:
                v.cache_clear()
            elif isinstance(v, list):
                v[:] = was
            else:
                v.clear()
                v.update(was)


def _patch_get_text() -> None:
    """ANTLR builds the text of a rule from the texts of its tokens."""
    from antlr4 import RuleContext

    if getattr(RuleContext, "_symwiz", False):
        return

    def getText(self):
        text: Any = ""
        for child in self.getChildren():
            text = text + child.getText()
        return text

    RuleContext.getText = getText
    RuleContext._symwiz = True
