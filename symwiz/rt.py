"""Runtime of the instrumentation (`__sv__` in instrumented modules).

The instrumented code calls in here for every call, subscript, membership test,
identity test, f-string and `%`; with no symbolic value involved each of these
does exactly what the uninstrumented code would do.
"""

from __future__ import annotations

import builtins
import codecs
import collections
import functools
import itertools
import math
import operator
import os
import pathlib
import re
import types
from typing import Any

import z3

from . import models
from .engine import Engine, Unsupported
from .values import (
    E,
    OpaqueStr,
    SymBase,
    SymBool,
    SymFloat,
    SymInt,
    SymStr,
    _deep_sym,
    _z,
    clamp,
    concat,
    fmod,
    index_seq,
    is_sym,
    kind,
    mkbool,
    mkfloat,
    num_function,
    zf,
    mkint,
    percent_format,
    slice_seq,
    str_format,
    str_or_opaque,
    sym_bool,
    sym_float,
    sym_int,
    sym_str,
    zi,
)

_FT = types.FunctionType
_MT = types.MethodType


def enter(name: str) -> None:
    e = Engine.current
    if e is not None:
        f = e.stats.functions
        f[name] = f.get(name, 0) + 1
        e.steps += 1
        if e.steps > e.max_steps:
            e.step(name)


def loop() -> None:
    e = Engine.current
    if e is not None:
        e.steps += 1
        if e.steps > e.max_steps:
            e.step("<loop>")


# ------------------------------------------------------------ builtin models
def _symish(x) -> bool:
    t = type(x)
    return isinstance(t, type) and (issubclass(t, SymBase) or t is OpaqueStr)


def _any(a, k) -> bool:
    for x in a:
        if _symish(x):
            return True
    for x in k.values():
        if _symish(x):
            return True
    return False


def sv_str(x: Any = "", *rest):
    if rest:
        return str(x, *rest)
    if isinstance(x, OpaqueStr):
        return x
    if is_sym(x):
        return sym_str(x)
    t = type(x)
    if t in (str, int, float, bool, bytes, type(None)):
        return str(x)
    if isinstance(x, (list, tuple, set, frozenset, dict)) and _deep_sym(x):
        return OpaqueStr("<sym>")
    f = t.__str__
    if f is object.__str__:
        f = t.__repr__
    if isinstance(f, _FT):
        return f(x)
    if isinstance(x, BaseException):
        if f is BaseException.__str__ and len(x.args) == 1 and _deep_sym(x.args[0]):
            a = x.args[0]
            return a if kind(a) == "s" else OpaqueStr("<sym>")
        if _deep_sym(x.args):
            return OpaqueStr("<sym>")
    return str(x)


def sv_repr(x):
    if _deep_sym(x):
        return OpaqueStr("<sym>")
    t = type(x)
    if isinstance(t.__repr__, _FT):
        return t.__repr__(x)
    return repr(x)


def sv_format(x, spec=""):
    if not spec:
        r = sv_str(x) if not is_sym(x) or kind(x) == "s" else OpaqueStr("<sym>")
        return r
    if _symish(x):
        return OpaqueStr("<sym>")
    return format(x, spec)


def sv_type(*a):
    if len(a) == 1:
        return a[0].__class__ if is_sym(a[0]) else type(a[0])
    return type(*a)


def sv_int(*a, **k):
    if a and is_sym(a[0]):
        return sym_int(*a, **k)
    return int(*a, **k)


def sv_float(*a):
    return sym_float(*a) if a and is_sym(a[0]) else float(*a)


def sv_bool(*a):
    return sym_bool(*a) if a and is_sym(a[0]) else bool(*a)


def sv_len(x):
    return len(x)


def sv_ord(x):
    if is_sym(x):
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        c = x.c[0]
        return c if isinstance(c, int) else mkint(c)
    return ord(x)


def sv_chr(x):
    if is_sym(x):
        t = zi(x)
        if E().fork(z3.Or(t < 0, t > 0x10FFFF)):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr.make([t])
    return chr(x)


def sv_hash(x):
    e = Engine.current
    k = kind(x)
    if k == "s" and e is not None:
        return SymStr.__hash__(SymStr.lift(x))
    return hash(x)


def sv_abs(x):
    return abs(x)


class SymRange:
    """range() with symbolic bounds: forks at every step; C-level needs of an
    exact length are served by concretising."""

    def __init__(self, *a):
        for x in a:
            if kind(x) not in ("i", "b"):
                if not hasattr(type(x), "__index__"):
                    raise TypeError(
                        f"'{sv_type(x).__name__}' object cannot be interpreted as an integer"
                    )
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a
        self.start = mkint(zi(self.start))
        self.stop = mkint(zi(self.stop))
        self.step = mkint(zi(self.step))
        if E().fork(zi(self.step) == 0):
            raise ValueError("range() arg 3 must not be zero")
        self.up = E().fork(zi(self.step) > 0)

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i, stop = zi(self.start), zi(self.stop)
        step = zi(self.step)
        while True:
            if not E().fork(i < stop if self.up else i > stop):
                return
            loop()
            yield mkint(i)
            i = z3.simplify(i + step)

    def __reversed__(self):
        return iter([*iter(self)][::-1])

    def __len__(self):
        n = 0
        for _ in iter(self):
            n += 1
        return n

    def index(self, x):
        return [*iter(self)].index(x)

    def count(self, x):
        return 1 if x in self else 0

    def __bool__(self):
        i, stop = zi(self.start), zi(self.stop)
        return E().fork(i < stop if self.up else i > stop)

    def __contains__(self, x):
        if kind(x) not in ("i", "b"):
            return False
        x, i, stop, step = zi(x), zi(self.start), zi(self.stop), zi(self.step)
        inside = z3.And(x >= i, x < stop) if self.up else z3.And(x <= i, x > stop)
        return E().fork(z3.And(inside, (x - i) % step == 0))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return slice_seq([*iter(self)], k)
        return index_seq([*iter(self)], k, "range object index out of range")

    def __eq__(self, o):
        if not isinstance(o, range):
            return NotImplemented
        return [*iter(self)] == [*iter(o)]

    __hash__ = None  # type: ignore


def sv_range(*a):
    if _any(a, {}):
        return SymRange(*a)
    return range(*a)


def _wrapfn(f):
    """A callable usable from C code in place of a builtin `f`."""
    if f is None or isinstance(f, (_FT, _MT)) and f not in _PYTABLE:
        return f
    return lambda *a, **k: call(f, *a, **k)


def sv_map(f, *its):
    return map(_wrapfn(f), *its)


def sv_filter(f, it):
    return filter(_wrapfn(f), it)


def sv_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrapfn(key), reverse=reverse)


def sv_min(*a, **k):
    if "key" in k:
        k["key"] = _wrapfn(k["key"])
    return min(*a, **k)


def sv_max(*a, **k):
    if "key" in k:
        k["key"] = _wrapfn(k["key"])
    return max(*a, **k)


def sv_reduce(f, *a):
    return functools.reduce(_wrapfn(f), *a)


def sv_any(it):
    return any(it)


def sv_enumerate(it, start=0):
    if is_sym(start):
        return zip(itertools.count(E().concretise(start.t)), it)
    return enumerate(it, start)


def sv_isinstance(x, t):
    return isinstance(x, t)


def sv_codecs_decode(x, encoding="utf-8", errors="strict"):
    if _symish(x) or type(x) is models.SymBytes:
        return models.codecs_decode(x, encoding, errors)
    return codecs.decode(x, encoding, errors)


def sv_codecs_encode(x, encoding="utf-8", errors="strict"):
    if _symish(x):
        return models.str_encode(x, encoding, errors)
    return codecs.encode(x, encoding, errors)


def sv_path(*a):
    if _any(a, {}):
        if len(a) != 1:
            raise Unsupported("Path with several parts")
        return models.SymPath(a[0])
    return pathlib.Path(*a)


def sv_basename(p):
    if _symish(p):
        return p[p.rfind("/") + 1 :]
    return os.path.basename(p)


def sv_contains_op(c, x):
    return contains(x, c)


def _numeric(f, ret):
    """a function of the math module"""

    def g(*a):
        if not any(is_sym(x) for x in a):
            return f(*a)
        return num_function("math." + f.__name__, f, ret, *a)

    return g


def _floatly(f, enc):
    def g(x):
        if not is_sym(x):
            return f(x)
        if not kind(x) or kind(x) == "s":
            raise TypeError("must be real number, not " + type(x).__name__)
        return enc(zf(x))

    return g


def _integral(f, method):
    def g(x):
        if not is_sym(x):
            return f(x)
        if kind(x) == "f":
            return num_function("math." + f.__name__, f, "i", x)
        if kind(x) in ("i", "b"):
            return +x
        raise TypeError("must be real number, not " + type(x).__name__)

    return g


def _fmod(x, y):
    if not is_sym(x) and not is_sym(y):
        return math.fmod(x, y)
    for v in (x, y):
        if kind(v) not in ("f", "i", "b") or not kind(v):
            raise TypeError("must be real number, not " + type(v).__name__)
    if y == 0:
        raise ValueError("math domain error")
    return mkfloat(fmod(zf(x), zf(y)))


_TABLE: dict[Any, Any] = {
    math.fmod: _fmod,
    math.pow: _numeric(math.pow, "f"),
    math.sqrt: _numeric(math.sqrt, "f"),
    math.remainder: _numeric(math.remainder, "f"),
    math.copysign: _numeric(math.copysign, "f"),
    math.isclose: _numeric(math.isclose, "b"),
    math.floor: _integral(math.floor, "floor"),
    math.ceil: _integral(math.ceil, "ceil"),
    math.trunc: _integral(math.trunc, "trunc"),
    math.isnan: _floatly(math.isnan, lambda t: mkbool(z3.fpIsNaN(t))),
    math.isinf: _floatly(math.isinf, lambda t: mkbool(z3.fpIsInf(t))),
    math.isfinite: _floatly(math.isfinite, lambda t: mkbool(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))),
    math.fabs: _floatly(math.fabs, lambda t: mkfloat(z3.fpAbs(t))),
    str: sv_str,
    int: sv_int,
    float: sv_float,
    bool: sv_bool,
    repr: sv_repr,
    format: sv_format,
    type: sv_type,
    range: sv_range,
    ord: sv_ord,
    chr: sv_chr,
    hash: sv_hash,
    map: sv_map,
    filter: sv_filter,
    sorted: sv_sorted,
    min: sv_min,
    max: sv_max,
    enumerate: sv_enumerate,
    functools.reduce: sv_reduce,
    codecs.decode: sv_codecs_decode,
    codecs.encode: sv_codecs_encode,
    pathlib.Path: sv_path,
    pathlib.PurePath: sv_path,
    pathlib.PurePosixPath: sv_path,
    os.path.basename: sv_basename,
    re.compile: None,
    re.sub: lambda p, r, s, count=0, flags=0: mcall(re.compile(p, flags), "sub", r, s, count),
    re.match: lambda p, s, flags=0: mcall(re.compile(p, flags), "match", s),
    re.search: lambda p, s, flags=0: mcall(re.compile(p, flags), "search", s),
    re.fullmatch: lambda p, s, flags=0: mcall(re.compile(p, flags), "fullmatch", s),
    re.findall: lambda p, s, flags=0: mcall(re.compile(p, flags), "findall", s),
    re.finditer: lambda p, s, flags=0: mcall(re.compile(p, flags), "finditer", s),
    re.subn: lambda p, r, s, count=0, flags=0: mcall(re.compile(p, flags), "subn", r, s, count),
    re.split: lambda p, s, maxsplit=0, flags=0: mcall(re.compile(p, flags), "split", s, maxsplit),
    operator.contains: sv_contains_op,
    operator.getitem: lambda o, k: getitem(o, k),
    operator.mod: lambda a, b: mod(a, b),
    set: lambda *a: sv_set(*a),
    frozenset: lambda *a: sv_frozenset(*a),
    dict: lambda *a, **k: sv_dict(*a, **k),
    operator.or_: lambda a, b: binop(operator.or_, a, b),
    operator.and_: lambda a, b: binop(operator.and_, a, b),
    operator.sub: lambda a, b: binop(operator.sub, a, b),
    operator.xor: lambda a, b: binop(operator.xor, a, b),
    operator.eq: lambda a, b: compare(operator.eq, a, b),
    operator.ne: lambda a, b: compare(operator.ne, a, b),
}
_TABLE.update({getattr: lambda o, n, *d: sv_getattr(o, n, *d), hasattr: lambda o, n: sv_hasattr(o, n)})
_TABLE = {k: v for k, v in _TABLE.items() if v is not None}

# those that are Python functions
_PYTABLE = {k: v for k, v in _TABLE.items() if type(k) is _FT}

_STRM = type(str.lower)
_BIM = types.BuiltinMethodType
_WRAP = type(object().__str__)
_SLOT = type(str.__len__)


def _attribute(o, name):
    """the plain name of an attribute, or None if there is none of this name"""
    if any("__getattr__" in vars(c) for c in type(o).__mro__) or isinstance(o, types.ModuleType):
        raise Unsupported("symbolic name of an attribute of an object with __getattr__")
    q = _key(dict.fromkeys(dir(o)), name)
    return q if type(q) is str and hasattr(o, q) else None


def sv_hasattr(o, name):
    if not _symish(name):
        return hasattr(o, name)
    return _attribute(o, name) is not None


def sv_getattr(o, name, *default):
    if not _symish(name):
        return getattr(o, name, *default)
    q = _attribute(o, name)
    if q is not None:
        return getattr(o, q)
    if default:
        return default[0]
    raise AttributeError("no such attribute")


def call(f, /, *a, **k):
    t = type(f)
    if t is _MT:
        return f(*a, **k)
    if t is _FT:
        m = _PYTABLE.get(f)
        return f(*a, **k) if m is None else m(*a, **k)
    try:
        m = _TABLE.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is _STRM or t is _SLOT:
        oc = f.__objclass__
        if a and (_any(a, k) or oc is str) and kind(a[0]):
            want = {"s": str, "i": int, "f": float, "b": int}[kind(a[0])]
            if oc is want or oc is object:
                return mcall(a[0], f.__name__, *a[1:], **k)
            raise TypeError(f"descriptor '{f.__name__}' requires a '{oc.__name__}' object")
        if a and oc in (list, dict, set, tuple):
            return mcall(a[0], f.__name__, *a[1:], **k)
    elif t is _BIM or t is _WRAP:
        s = getattr(f, "__self__", None)
        if s is dict and f.__name__ == "fromkeys":
            return sv_fromkeys(*a, **k)
        if isinstance(s, (str, dict, set, frozenset)) and not is_sym(s):
            return mcall(s, f.__name__, *a, **k)
    elif t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *f.args, *a, **kk)
    elif t is operator.itemgetter and len(a) == 1:
        ks = f.__reduce__()[1]
        r = tuple(getitem(a[0], q) for q in ks)
        return r[0] if len(r) == 1 else r
    elif t is operator.methodcaller and len(a) == 1:
        n, *rest = f.__reduce__()[1]
        return mcall(a[0], n, *rest)
    return f(*a, **k)


def mcall(o, name, /, *a, **k):
    t = type(o)
    if t not in _SPECIAL:
        f = getattr(o, name)
        if type(f) is _MT:
            return f(*a, **k)
        return call(f, *a, **k)
    if t is str:
        if name == "format":
            if _deep_sym(a) or _deep_sym(k):
                return str_format(o, a, k)
            return str_format(o, a, k) if _custom(a, k) else o.format(*a, **k)
        if name == "join":
            items = list(a[0])
            if any(_symish(x) for x in items):
                if any(isinstance(x, OpaqueStr) for x in items):
                    return OpaqueStr("<sym>")
                return SymStr.lift(o).join(items)
            return o.join(items)
        if _any(a, k) or (a and type(a[0]) is tuple and _deep_sym(a[0])):
            return getattr(SymStr.lift(o), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t in _HASHED:
        if name in _KEYED and a:
            q = _key(o, a[0])
            if type(q) is _Miss and name not in ("setdefault", "add"):
                if name == "get" or name == "pop" and len(a) > 1 and t in _DICTS:
                    return a[1] if len(a) > 1 else None
                if name in ("discard", "__contains__"):
                    return None if name == "discard" else False
                if name != "__getitem__" or t in (dict, collections.OrderedDict):
                    raise KeyError(a[0])
            return getattr(o, name)(_plain(q), *a[1:], **k)
        if t in _SETS:
            if name in _SETMUT or name in _SETOPS or name in ("issubset", "issuperset", "isdisjoint"):
                a = [x if type(x) in _HASHED else list(x) for x in a]
                if _texts(o, *a):
                    return _set_method(o, name, a)
        elif name == "update" and t is not collections.Counter:
            return _dict_update(o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        if any(_symish(x) for x in a):
            return models.pattern_call(o, name, a, k)
        if name == "sub" and a and callable(a[0]):
            return o.sub(_wrapfn(a[0]), *a[1:], **k)
        return getattr(o, name)(*a, **k)
    if t is bytes and any(type(x) is models.SymBytes or _symish(x) for x in a):
        raise Unsupported(f"bytes.{name} with symbolic argument")
    return call(getattr(o, name), *a, **k)


_SPECIAL = {str, dict, set, frozenset, collections.OrderedDict, collections.defaultdict, collections.Counter, re.Pattern, bytes}
_PLAIN = frozenset((str, int, type(None), type))
_KEYED = {"get", "pop", "setdefault", "__contains__", "__getitem__", "add", "discard", "remove"}


def _custom(a, k) -> bool:
    return any(type(x) not in (str, int, float, bool) for x in a) or bool(k)


def _key(container, key):
    """The key to use for a native lookup: when the container or the key is
    symbolic, decide by forking which existing key (if any) is meant."""
    e = Engine.current
    if e is None or not container:
        return key if e is None or type(key) not in (SymInt, SymBool) else _Miss(key)
    ks = type(key) is SymStr
    if not ks:
        if type(key) is str and _PLAIN.issuperset(map(type, container)):
            return key
        if type(key) in (SymInt, SymBool):
            if any(is_sym(q) and kind(q) in ("i", "b", "f") for q in container):
                return key
            for q in container:
                if kind(q) in ("i", "b", "f") and bool(q == key):
                    return q
            return _Miss(key)
        if type(key) not in (str,) and kind(key):
            return key
        if type(key) is str and not any(
            type(q) is SymStr or not kind(q) and isinstance(type(q).__hash__, _FT)
            for q in container
        ):
            return key
        if not kind(key) and not isinstance(type(key).__hash__, _FT):
            return key
    hk = sv_hash(key)
    for q in container:
        if q is key:
            return q
        if kind(q) and not (kind(q) == "s" or not kind(key)):
            continue
        if sv_hash(q) == hk and bool(q == key):
            return q
    if ks or type(key) is str:
        # a string known to differ from every key: never equal natively
        return _Fresh(key) if type(key) is str else key
    return key


class _Fresh(str):
    """Concrete key shown to be absent from the container."""

    __slots__ = ()


class _Miss:
    """Symbolic number shown to be absent from the container."""

    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


def _plain(q):
    if type(q) is _Miss:
        return q.key
    return str.__str__(q) if type(q) is _Fresh else q


_DICTS = (dict, collections.OrderedDict, collections.defaultdict, collections.Counter)
_SETS = (set, frozenset)
_HASHED = frozenset(_DICTS + _SETS)
_VIEWS = (type({}.keys()), type(collections.OrderedDict().keys()))


def _texts(*cs) -> bool:
    """Is a symbolic text among the elements?  (Native operations know nothing of
    its equality with plain texts.)"""
    for c in cs:
        if type(c) in _HASHED or type(c) in _VIEWS or type(c) in (list, tuple):
            for x in c:
                if type(x) is SymStr:
                    return True
    return False


def _add(s, x):
    s.add(_plain(_key(s, x)))


def _set_of(items):
    s: set[Any] = set()
    for x in items:
        _add(s, x)
    return s


def sv_set(it=()):
    items = list(it)
    return _set_of(items) if _texts(items) else set(items)


def sv_frozenset(it=()):
    return frozenset(sv_set(it))


def set_(items):
    """a set display or comprehension"""
    return sv_set(items)


def dict_(items):
    """a dict display or comprehension"""
    d: dict[Any, Any] = {}
    for k, v in items:
        setitem(d, k, v)
    return d


def dict_display(*items):
    d: dict[Any, Any] = {}
    for k, v in items:
        if k is None and type(v) is _Unpack:
            _dict_update(d, v.v)
        else:
            setitem(d, k[0], v)
    return d


class _Unpack:
    def __init__(self, v):
        self.v = v


unpack = _Unpack


def _dict_update(d, *a, **k):
    if len(a) > 1:
        raise TypeError(f"update expected at most 1 argument, got {len(a)}")
    for src in a:
        if hasattr(src, "keys"):
            for q in list(src.keys()):
                setitem(d, q, getitem(src, q))
        else:
            for x, y in src:
                setitem(d, x, y)
    for q, v in k.items():
        setitem(d, q, v)


def sv_dict(*a, **k):
    d: dict[Any, Any] = {}
    _dict_update(d, *a, **k)
    return d


def sv_fromkeys(it, value=None):
    d: dict[Any, Any] = {}
    for x in it:
        setitem(d, x, value)
    return d


def _union(a, *os):
    r = _set_of(a)
    for o in os:
        for x in o:
            _add(r, x)
    return r


def _intersection(a, *os):
    r = list(a)
    for o in os:
        o = _set_of(o)
        r = [x for x in r if contains(x, o)]
    return _set_of(r)


def _difference(a, *os):
    r = list(a)
    for o in os:
        o = _set_of(o)
        r = [x for x in r if not contains(x, o)]
    return _set_of(r)


def _symmetric(a, o):
    a, o = _set_of(a), _set_of(o)
    return _union([x for x in a if not contains(x, o)], [x for x in o if not contains(x, a)])


def _subset(a, o):
    o = _set_of(o)
    return all(contains(x, o) for x in a)


_SETOPS = {
    "union": _union,
    "intersection": _intersection,
    "difference": _difference,
    "symmetric_difference": _symmetric,
}
_SETMUT = {"update": "union", "intersection_update": "intersection", "difference_update": "difference", "symmetric_difference_update": "symmetric_difference"}


def _set_method(o, name, a):
    """set.update() and the like, element by element"""
    t = type(o)
    if name in _SETMUT:
        r = _SETOPS[_SETMUT[name]](o, *a)
        o.clear()
        o |= r
        return None
    if name in _SETOPS:
        return t(_SETOPS[name](o, *a))
    if name == "issubset":
        return _subset(o, a[0])
    if name == "issuperset":
        return _subset(_set_of(a[0]), o)
    if name == "isdisjoint":
        return not _intersection(o, a[0])
    raise AssertionError(name)


_SETBIN = {operator.or_: _union, operator.and_: _intersection, operator.sub: _difference, operator.xor: _symmetric}


def _setlike(x) -> bool:
    return type(x) in _SETS or type(x) in _VIEWS


def binop(op, a, b):
    """| & - ^ of instrumented code"""
    if _setlike(a) and _setlike(b) and _texts(a, b):
        r = _SETBIN[op](a, b)
        return frozenset(r) if type(a) is frozenset else r
    if op is operator.or_ and type(a) in _DICTS and type(b) in _DICTS and _texts(a, b):
        r = a.copy()
        _dict_update(r, b)
        return r
    return op(a, b)


_INPLACE = {operator.or_: operator.ior, operator.and_: operator.iand, operator.sub: operator.isub, operator.xor: operator.ixor}
_UPDATE = {operator.or_: "update", operator.and_: "intersection_update", operator.sub: "difference_update", operator.xor: "symmetric_difference_update"}


def inplace(op, a, b):
    if type(a) is set and _setlike(b) and _texts(a, b):
        _set_method(a, _UPDATE[op], [b])
        return a
    if op is operator.or_ and type(a) in _DICTS and _texts(a, b):
        _dict_update(a, b)
        return a
    if _setlike(a) and _texts(a, b):
        return binop(op, a, b)
    return _INPLACE[op](a, b)


bin_or, bin_and, bin_sub, bin_xor = operator.or_, operator.and_, operator.sub, operator.xor


def compare(op, a, b):
    """== != <= < >= > of instrumented code"""
    if _setlike(a) and _setlike(b) and _texts(a, b):
        n = op.__name__
        if n in ("eq", "ne"):
            r = len(a) == len(b) and _subset(a, b)
            return r if n == "eq" else not r
        if n in ("ge", "gt"):
            a, b = b, a
        return _subset(a, b) and (n in ("le", "ge") or len(a) < len(b))
    if type(a) in _DICTS and type(b) in _DICTS and op.__name__ in ("eq", "ne") and _texts(a, b):
        r = len(a) == len(b)
        if r:
            for k, v in a.items():
                q = _key(b, k)
                if type(q) in (_Fresh, _Miss) or q not in b or not b[q] == v:
                    r = False
                    break
        return r if op.__name__ == "eq" else not r
    return op(a, b)


cmp_eq, cmp_ne, cmp_lt, cmp_le, cmp_gt, cmp_ge = operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge


def getitem(o, k):
    t = type(o)
    if t is str:
        if type(k) is slice:
            if _symish(k.start) or _symish(k.stop) or _symish(k.step):
                return slice_seq(o, k)
            return o[k]
        return index_seq(o, k, "string index out of range") if is_sym(k) and kind(k) in "ib" else o[k]
    if isinstance(o, (list, tuple)):
        g = t.__getitem__
        if g is list.__getitem__ or g is tuple.__getitem__:
            if type(k) is slice:
                if _symish(k.start) or _symish(k.stop) or _symish(k.step):
                    return slice_seq(o, k)
            elif is_sym(k) and kind(k) in ("i", "b"):
                return index_seq(o, k, f"{t.__name__} index out of range")
        return o[k]
    if t in _HASHED:
        q = _key(o, k)
        if type(q) in (_Fresh, _Miss) and t in (dict, collections.OrderedDict):
            raise KeyError(k)
        return o[_plain(q)]
    return o[k]


def setitem(o, k, v):
    if type(o) in _HASHED:
        o[_plain(_key(o, k))] = v
    else:
        o[k] = v


def delitem(o, k):
    if type(o) in _HASHED:
        q = _key(o, k)
        if type(q) in (_Fresh, _Miss):
            raise KeyError(k)
        del o[q]
    else:
        del o[k]


def contains(x, c):
    t = type(c)
    if t is str:
        if _symish(x):
            return SymStr.lift(c).__contains__(x)
        return x in c
    if t in _HASHED:
        q = _key(c, x)
        return type(q) not in (_Fresh, _Miss) and q in c
    if t in _VIEWS:
        for q in c:
            if sv_hash(q) == sv_hash(x) and q == x:
                return True
        return False
    return x in c


def is_(a, b):
    if a is b:
        return True
    if type(a) is SymBool and isinstance(b, bool):
        return E().fork(a.t == z3.BoolVal(b)) if not is_sym(b) else E().fork(a.t == b.t)
    if type(b) is SymBool and isinstance(a, bool):
        return E().fork(b.t == z3.BoolVal(a))
    return False


def mod(a, b):
    if type(a) is str:
        if _deep_sym(b) or not kind(b) and not isinstance(b, tuple):
            return percent_format(a, b)
    return a % b


def fstr(*parts):
    """parts: literal strings and (value, conversion, spec) triples."""
    out: list[Any] = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = sv_repr(v)
        elif conv == 115:
            v = sv_str(v)
        out.append(sv_format(v, spec))
    return concat(out)


slice = slice


def setitem_(v, o, k):
    setitem(o, k, v)


def genuine(v):
    k = kind(v)
    if is_sym(v) and k == "b":
        return bool(v)
    if is_sym(v) and k == "i":
        return E().concretise(v.t)
    return v
