"""Symbolic stand-ins for Python's bool, int, float and str.

Every proxy reports the built-in type through `__class__`, so `isinstance`,
`match` class patterns and (through the instrumentation) `type()` in the code
under test see the ordinary Python type.
"""

from __future__ import annotations

import math
import struct
from typing import Any, Iterable

import z3

from .engine import Engine, PathAbort, Unsupported

F64 = z3.Float64()
RNE = z3.RNE()
MAXSTR = 64


def E() -> Engine:
    e = Engine.current
    if e is None:
        raise Unsupported("symbolic value used outside an exploration")
    return e


class SymBase:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic value")


def is_sym(x: Any) -> bool:
    return isinstance(type(x), type) and issubclass(type(x), SymBase)


# ---------------------------------------------------------------- conversions
def zb(x) -> Any:
    """z3 Bool of a bool / SymBool."""
    if type(x) is SymBool:
        return x.t
    return z3.BoolVal(bool(x))


def zi(x) -> Any:
    tx = type(x)
    if tx is SymInt:
        return x.t
    if tx is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def _fval(f: float):
    if math.isnan(f):
        return z3.fpNaN(F64)
    if math.isinf(f):
        return z3.fpPlusInfinity(F64) if f > 0 else z3.fpMinusInfinity(F64)
    bits = struct.unpack("<Q", struct.pack("<d", f))[0]
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), F64))


def fp_to_py(v) -> float:
    v = z3.simplify(v)
    if z3.is_fp(v) and z3.simplify(z3.fpIsNaN(v)).eq(z3.BoolVal(True)):
        return math.nan
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack("<d", struct.pack("<Q", bv.as_long()))[0]


def _int_dec(v):
    return v.as_long()


def i2f(t):
    """int -> float conversion (uninterpreted, concrete axioms on demand)."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return _fval(float(t.as_long()))
    e = E()
    if t.get_id() in e.exact:
        return z3.fpSignedToFP(RNE, e.exact[t.get_id()][1], F64)
    app = e.uf("int2float", (t,), F64, float, (_int_dec,), _fval)
    e.add(
        z3.And(
            z3.Not(z3.fpIsNaN(app)),
            z3.Not(z3.fpIsInf(app)),
            (t > 0) == z3.fpGT(app, _fval(0.0)),
            (t < 0) == z3.fpLT(app, _fval(0.0)),
        )
    )
    return app


def zf(x) -> Any:
    tx = type(x)
    if tx is SymFloat:
        return x.t
    if tx in (SymInt, SymBool):
        return i2f(zi(x))
    return _fval(float(x))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkfloat(t):
    return SymFloat(z3.simplify(t))


def kind(x) -> str:
    """'b','i','f','s' or '' for a (symbolic or real) basic value."""
    tx = type(x)
    if tx is SymBool or tx is bool:
        return "b"
    if tx is SymInt:
        return "i"
    if tx is SymFloat:
        return "f"
    if tx is SymStr:
        return "s"
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, float):
        return "f"
    if isinstance(x, str):
        return "s"
    return ""


def _num(x) -> bool:
    return kind(x) in ("b", "i", "f") and kind(x) != ""


# ------------------------------------------------------------------- numbers
class _SymNum(SymBase):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    # arithmetic -------------------------------------------------------
    def _bin(self, o, op: str, swap: bool):
        k = kind(o)
        if k not in ("b", "i", "f") or k == "":
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return arith(op, a, b)

    def __add__(self, o):
        return self._bin(o, "+", False)

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-", False)

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        if kind(o) == "s":
            return SymStr.lift(o) * self
        return self._bin(o, "*", False)

    def __rmul__(self, o):
        if kind(o) == "s":
            return SymStr.lift(o) * self
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/", False)

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, "//", False)

    def __rfloordiv__(self, o):
        return self._bin(o, "//", True)

    def __mod__(self, o):
        return self._bin(o, "%", False)

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        return self._bin(o, "**", False)

    def __rpow__(self, o):
        return self._bin(o, "**", True)

    def __neg__(self):
        if kind(self) == "f":
            return mkfloat(z3.fpNeg(self.t))
        return mkint(-zi(self))

    def __pos__(self):
        return self if kind(self) != "b" else mkint(zi(self))

    @property
    def real(self):
        return +self

    @property
    def imag(self):
        return 0.0 if type(self) is SymFloat else 0

    def conjugate(self):
        return +self

    def __abs__(self):
        if kind(self) == "f":
            return mkfloat(z3.fpAbs(self.t))
        t = zi(self)
        return mkint(z3.If(t < 0, -t, t))

    # comparison -------------------------------------------------------
    def _cmp(self, o, op):
        if not _num(o):
            return NotImplemented
        return compare(op, self, o)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        # equal numbers must hash equally: decide equality with everything
        # hashed before on this path, else take the value itself
        if kind(self) == "f":
            raise Unsupported("hash of a symbolic float")
        return hash(E().concretise(zi(self)))

    def __repr__(self):
        return OpaqueStr(f"<{kind(self)}:sym>")

    __str__ = __repr__

    def __format__(self, spec):
        return OpaqueStr(f"<{kind(self)}:sym>")


class SymBool(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().fork(self.t)

    def __index__(self):
        return int(E().fork(self.t))

    __int__ = __index__

    def __and__(self, o):
        if kind(o) == "b":
            return mkbool(z3.And(self.t, zb(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if kind(o) == "b":
            return mkbool(z3.Or(self.t, zb(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if kind(o) == "b":
            return mkbool(z3.Xor(self.t, zb(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-zi(self) - 1)


class SymInt(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return E().fork(self.t != 0)

    def __index__(self):
        return E().concretise(self.t)

    __int__ = __index__

    def __invert__(self):
        return mkint(-self.t - 1)

    def is_integer(self):
        return True

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        if n is None or not is_sym(n) and n >= 0:
            return self
        return num_function(f"round{int(n)}", lambda x: round(x, int(n)), "i", self)

    def bit_length(self):
        return E().concretise(self.t).bit_length()

    def _bits(self, o, f):
        if kind(o) not in ("i", "b"):
            return NotImplemented
        return f(E().concretise(self.t), int(o))

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__


class SymFloat(_SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return E().fork(z3.Not(z3.fpIsZero(self.t)))

    def is_integer(self):
        x = self.t
        return mkbool(z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), x), x)))

    def __round__(self, n=None):
        if n is None:
            return num_function("round", round, "i", self)
        return num_function(f"round{int(n)}", lambda x: round(x, int(n)), "f", self)

    def __float__(self):
        raise Unsupported("C-level float() of a symbolic float")


def _py_floor_mod(a, b):
    # z3: a = b*div + mod with 0 <= mod < |b|
    m = a % b
    return z3.If(z3.And(b < 0, m != 0), m + b, m)


def _py_floor_div(a, b):
    # floor division; z3 `/` on Int is Euclidean division
    m = _py_floor_mod(a, b)
    return (a - m) / b


def _ipow(a, b):
    return a**b


def arith(op: str, a, b):
    """Python's numeric binary operators on (possibly symbolic) numbers."""
    e = E()
    isf = kind(a) == "f" or kind(b) == "f"
    if not isf:
        x, y = zi(a), zi(b)
        if op == "+":
            return mkint(x + y)
        if op == "-":
            return mkint(x - y)
        if op == "*":
            return mkint(x * y)
        if op == "**":
            return _int_pow(x, y)
        if e.fork(y == 0):
            raise ZeroDivisionError("division by zero")
        if op == "/":
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                return xs.as_long() / ys.as_long()
            app = e.uf(
                "int_truediv",
                (xs, ys),
                F64,
                lambda p, q: p / q,
                (_int_dec, _int_dec),
                _fval,
            )
            e.add(z3.And(z3.Not(z3.fpIsNaN(app)), z3.Not(z3.fpIsInf(app))))
            e.add(z3.fpIsZero(app) == (xs == 0))
            return SymFloat(app)
        if op == "%":
            return mkint(_py_floor_mod(x, y))
        if op == "//":
            return mkint(_py_floor_div(x, y))
        raise Unsupported(op)
    x, y = zf(a), zf(b)
    if op == "+":
        return mkfloat(z3.fpAdd(RNE, x, y))
    if op == "-":
        return mkfloat(z3.fpSub(RNE, x, y))
    if op == "*":
        return mkfloat(z3.fpMul(RNE, x, y))
    if op == "**":
        return _float_pow(x, y)
    if e.fork(z3.fpIsZero(y)):
        raise ZeroDivisionError("float division by zero")
    if op == "/":
        return mkfloat(z3.fpDiv(RNE, x, y))
    if op in ("%", "//"):
        mod, div = _float_divmod(x, y)
        return mkfloat(mod if op == "%" else div)
    raise Unsupported(op)


def fmod(x, y):
    """C fmod() of finite x and finite nonzero y, with the axioms that hold exactly"""
    e = E()
    m = e.uf("fmod", (x, y), F64, math.fmod, (fp_to_py, fp_to_py), _fval)
    ax, ay, am = z3.fpAbs(x), z3.fpAbs(y), z3.fpAbs(m)
    fin = z3.And(*[z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))) for t in (x, y)], z3.Not(z3.fpIsZero(y)))
    e.add(
        z3.Implies(
            fin,
            z3.And(
                z3.Not(z3.fpIsNaN(m)),
                z3.fpLT(am, ay),
                z3.fpLEQ(am, ax),
                z3.fpIsNegative(m) == z3.fpIsNegative(x),
                z3.Implies(z3.fpLT(ax, ay), m == x),
            ),
        )
    )
    return m


def _float_divmod(x, y):
    """Python's float_divmod"""
    m = fmod(x, y)
    zero = _fval(0.0)
    div = z3.fpDiv(RNE, z3.fpSub(RNE, x, m), y)
    off = z3.And(z3.Not(z3.fpIsZero(m)), z3.fpLT(y, zero) != z3.fpLT(m, zero))
    signed = lambda neg: z3.If(neg, _fval(-0.0), zero)  # noqa: E731
    mod = z3.If(z3.fpIsZero(m), signed(z3.fpIsNegative(y)), z3.If(off, z3.fpAdd(RNE, m, y), m))
    div = z3.If(off, z3.fpSub(RNE, div, _fval(1.0)), div)
    fl = z3.fpRoundToIntegral(z3.RTN(), div)
    fl = z3.If(z3.fpGT(z3.fpSub(RNE, div, fl), _fval(0.5)), z3.fpAdd(RNE, fl, _fval(1.0)), fl)
    fl = z3.If(z3.fpIsZero(div), signed(z3.fpIsNegative(z3.fpDiv(RNE, x, y))), fl)
    return mod, fl


def num_function(name: str, f, ret: str, *args):
    """A pure function of numbers as an uninterpreted function; `f` gives its
    values (and errors) on concrete arguments."""
    e = E()
    terms, dec = [], []
    for a in args:
        if kind(a) == "f":
            if ret == "i":
                if e.fork(z3.fpIsNaN(zf(a))):
                    raise ValueError("cannot convert float NaN to integer")
                if e.fork(z3.fpIsInf(zf(a))):
                    raise OverflowError("cannot convert float infinity to integer")
            terms.append(zf(a))
            dec.append(fp_to_py)
        elif kind(a) in ("i", "b"):
            terms.append(z3.simplify(zi(a)))
            dec.append(_int_dec)
        else:
            raise TypeError("must be real number, not " + type(a).__name__)
    name += "." + "".join(map(kind, args))
    sort, enc, make = {
        "f": (F64, _fval, SymFloat),
        "i": (z3.IntSort(), z3.IntVal, SymInt),
        "b": (z3.BoolSort(), z3.BoolVal, SymBool),
    }[ret]
    return make(e.uf(name, tuple(terms), sort, f, tuple(dec), enc))


def _int_pow(x, y):
    e = E()
    xs, ys = z3.simplify(x), z3.simplify(y)
    if z3.is_int_value(xs) and z3.is_int_value(ys):
        return xs.as_long() ** ys.as_long()
    if e.fork(ys < 0):
        if e.fork(xs == 0):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return SymFloat(
            e.uf("int_pow_neg", (xs, ys), F64, _ipow, (_int_dec, _int_dec), _fval)
        )
    return SymInt(
        e.uf("int_pow", (xs, ys), z3.IntSort(), _ipow, (_int_dec, _int_dec), z3.IntVal)
    )


def _fpow(p, q):
    r = p**q
    if isinstance(r, complex):
        raise ValueError("complex")
    return r


def _float_pow(x, y):
    # complex results (negative base, non-integer exponent) are cut off: callers
    # restrict the domain; a model reaching them is excluded by refinement.
    e = E()
    if e.fork(z3.And(z3.fpIsZero(x), z3.fpLT(y, _fval(0.0)))):
        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    return SymFloat(e.uf("float_pow", (x, y), F64, _fpow, (fp_to_py, fp_to_py), _fval))


F128 = z3.FPSort(15, 113)


def _wide(x):
    """a number exactly in quadruple precision, None when this cannot be said"""
    if kind(x) == "f":
        return z3.fpToFP(RNE, zf(x), F128)
    t = z3.simplify(zi(x))
    if z3.is_int_value(t):
        n = t.as_long()
        return z3.fpSignedToFP(RNE, z3.BitVecVal(n, 64), F128) if abs(n) < 2**63 else None
    if t.get_id() in E().exact:
        return z3.fpSignedToFP(RNE, E().exact[t.get_id()][1], F128)
    return None


def compare(op: str, a, b):
    isf = kind(a) == "f" or kind(b) == "f"
    if isf:
        x = y = None
        if E().exact and kind(a) != kind(b):
            # Python compares integers and floats exactly
            x, y = _wide(a), _wide(b)
        if x is None or y is None:
            x, y = zf(a), zf(b)
        t = {
            "==": z3.fpEQ,
            "<": z3.fpLT,
            "<=": z3.fpLEQ,
            ">": z3.fpGT,
            ">=": z3.fpGEQ,
            "!=": lambda p, q: z3.Not(z3.fpEQ(p, q)),
        }[op](x, y)
        return mkbool(t)
    if kind(a) == "b" and kind(b) == "b" and op in ("==", "!="):
        t = zb(a) == zb(b)
        return mkbool(t if op == "==" else z3.Not(t))
    x, y = zi(a), zi(b)
    t = {
        "==": lambda: x == y,
        "!=": lambda: x != y,
        "<": lambda: x < y,
        "<=": lambda: x <= y,
        ">": lambda: x > y,
        ">=": lambda: x >= y,
    }[op]()
    return mkbool(t)


# -------------------------------------------------------------------- strings
class OpaqueStr(str):
    """Text that depends on a symbolic value in a way that is not encoded (only
    meant for messages).  Any inspection of it is refused."""

    def _no(self, *a, **k):
        raise Unsupported("content of a formatted message inspected")

    def __add__(self, o):
        return OpaqueStr(str.__str__(self) + str(o))

    def __radd__(self, o):
        return OpaqueStr(str(o) + str.__str__(self))

    def __str__(self):
        return self

    def __format__(self, s):
        return self

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __hash__ = _no  # type: ignore
    __contains__ = __getitem__ = __iter__ = _no  # type: ignore
    startswith = endswith = find = index = lower = upper = casefold = split = _no  # type: ignore


def _z(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def _norm(c):
    if isinstance(c, int):
        return c
    c = z3.simplify(c)
    if z3.is_int_value(c):
        return c.as_long()
    return c


def _ceq(a, b):
    """equality of two characters: python bool or z3 Bool"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return _z(a) == _z(b)


def _and(parts: Iterable[Any]):
    out = []
    for p in parts:
        if p is True:
            continue
        if p is False:
            return z3.BoolVal(False)
        out.append(p)
    return z3.And(*out) if out else z3.BoolVal(True)


def in_ranges(c, ranges) -> Any:
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    return z3.Or(*[(c == lo) if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in ranges])


# character domain of symbolic strings: see DESIGN.md ("character domain")
DOMAINS: dict[str, list[tuple[int, int]]] = {
    "word": [(48, 57), (65, 90), (95, 95), (97, 122)],
    "ascii": [(32, 126)],
    "ascii+": [(9, 10), (13, 13), (32, 126)],
    "alnum": [(48, 57), (65, 90), (97, 122)],
    "name": [(32, 33), (35, 38), (40, 46), (48, 57), (65, 90), (95, 95), (97, 122)],
    # names with letters whose lower()/casefold() differ or whose case folding is
    # not length preserving
    "uni": [
        (32, 126),
        (0xC0, 0xD6),
        (0xD8, 0xF6),
        (0xF8, 0xFF),
        (0x17F, 0x17F),
        (0x410, 0x44F),
        (0x1E9E, 0x1E9E),
        (0x20AC, 0x20AC),
        (0x212A, 0x212A),
    ],
    "latin": [(32, 126), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0xFF)],
    "digits": [(48, 57)],
}
_FULL = [(9, 13), (28, 126), (0xA0, 0xFF), (0x17F, 0x17F), (0x410, 0x44F), (0x1E9E, 0x1E9E), (0x20AC, 0x20AC), (0x212A, 0x212A)]

_case_cache: dict[str, tuple[list[tuple[int, int, int]], dict[int, str]]] = {}


def _case_map(fn: str):
    """(runs of constant offset, special multi/irregular mappings) over _FULL,
    computed from Python's own str method."""
    if fn not in _case_cache:
        runs: list[tuple[int, int, int]] = []
        special: dict[int, str] = {}
        for lo, hi in _FULL:
            for c in range(lo, hi + 1):
                r = getattr(chr(c), fn)()
                if len(r) != 1:
                    special[c] = r
                    continue
                d = ord(r) - c
                if runs and runs[-1][2] == d and runs[-1][1] == c - 1:
                    runs[-1] = (runs[-1][0], c, d)
                else:
                    runs.append((c, c, d))
        runs = [r for r in runs if r[2] != 0]
        _case_cache[fn] = (runs, special)
    return _case_cache[fn]


def _map_case(chars, fn: str):
    runs, special = _case_map(fn)
    out: list[Any] = []
    for c in chars:
        if isinstance(c, int):
            out.extend(ord(x) for x in getattr(chr(c), fn)())
            continue
        done = False
        for sc, rep in special.items():
            if E().fork(c == sc):
                out.extend(ord(x) for x in rep)
                done = True
                break
        if done:
            continue
        t = c
        for lo, hi, d in runs:
            cond = (c == lo) if lo == hi else z3.And(c >= lo, c <= hi)
            t = z3.If(cond, c + d, t)
        out.append(_norm(t))
    return out


_WS = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0)]


class SymStr(SymBase):
    """String of known length with (possibly) symbolic code points."""

    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = tuple(_norm(x) for x in chars)

    @property
    def __class__(self):
        return str

    @staticmethod
    def lift(s) -> "SymStr":
        if type(s) is SymStr:
            return s
        if isinstance(s, OpaqueStr):
            raise Unsupported("content of a formatted message inspected")
        return SymStr([ord(x) for x in s])

    @staticmethod
    def make(chars):
        s = SymStr(chars)
        if all(isinstance(x, int) for x in s.c):
            return "".join(map(chr, s.c))
        return s

    def __repr__(self):
        return OpaqueStr("<str:sym>")

    def __str__(self):
        return OpaqueStr("<str:sym>")

    def __format__(self, spec):
        return OpaqueStr("<str:sym>")

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return (SymStr.make([x]) for x in self.c)

    # comparison -------------------------------------------------------
    def _eqt(self, o):
        o = SymStr.lift(o)
        if len(o.c) != len(self.c):
            return z3.BoolVal(False)
        return _and(_ceq(a, b) for a, b in zip(self.c, o.c))

    def __eq__(self, o):
        if kind(o) != "s":
            return NotImplemented
        return mkbool(self._eqt(o))

    def __ne__(self, o):
        if kind(o) != "s":
            return NotImplemented
        return mkbool(z3.Not(self._eqt(o)))

    def _lt(self, o, strict_end: bool):
        """self < o (strict_end=False) or self <= o (True), as z3 Bool."""
        a, b = self.c, SymStr.lift(o).c
        n = min(len(a), len(b))
        t = z3.BoolVal(len(a) < len(b) or (strict_end and len(a) == len(b)))
        for i in reversed(range(n)):
            x, y = _z(a[i]), _z(b[i])
            t = z3.Or(x < y, z3.And(x == y, t))
        return t

    def __lt__(self, o):
        if kind(o) != "s":
            return NotImplemented
        return mkbool(self._lt(o, False))

    def __le__(self, o):
        if kind(o) != "s":
            return NotImplemented
        return mkbool(self._lt(o, True))

    def __gt__(self, o):
        if kind(o) != "s":
            return NotImplemented
        return mkbool(z3.Not(self._lt(o, True)))

    def __ge__(self, o):
        if kind(o) != "s":
            return NotImplemented
        return mkbool(z3.Not(self._lt(o, False)))

    def __hash__(self):
        e = E()
        for prev, h in e.hashed:
            if len(prev) == len(self.c) and e.fork(SymStr(prev)._eqt(self)):
                return h
        if all(isinstance(x, int) for x in self.c):
            h = hash("".join(map(chr, self.c)))
        else:
            h = hash(("symstr", len(e.hashed)))
        e.hashed.append((self.c, h))
        return h

    # building ---------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, OpaqueStr):
            return OpaqueStr("<str:sym>")
        if kind(o) != "s":
            return NotImplemented
        return SymStr.make(self.c + SymStr.lift(o).c)

    def __radd__(self, o):
        if isinstance(o, OpaqueStr):
            return OpaqueStr("<str:sym>")
        if kind(o) != "s":
            return NotImplemented
        return SymStr.make(SymStr.lift(o).c + self.c)

    def __mul__(self, n):
        if kind(n) not in ("i", "b"):
            return NotImplemented
        n = n.__index__()
        if n > MAXSTR:
            raise Unsupported("string repetition beyond bound")
        return SymStr.make(self.c * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return percent_format(self, args)

    # indexing ---------------------------------------------------------
    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr.make(slice_seq(self.c, k))
        if kind(k) not in ("i", "b"):
            raise TypeError(f"string indices must be integers, not '{type(k).__name__}'")
        return SymStr.make([index_seq(self.c, k, "string index out of range")])

    def __contains__(self, o):
        if kind(o) != "s":
            raise TypeError("'in <string>' requires string as left operand")
        sub = SymStr.lift(o).c
        n = len(sub)
        cs = [self._at(i, sub) for i in range(len(self.c) - n + 1)]
        return E().fork(z3.Or(*cs) if cs else z3.BoolVal(False))

    def _at(self, i, sub):
        return _and(_ceq(a, b) for a, b in zip(self.c[i : i + len(sub)], sub))

    def _range(self, start, end):
        n = len(self.c)
        return (
            clamp(start, n, 0),
            clamp(end, n, n),
        )

    # searching --------------------------------------------------------
    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def _find(self, sub, start, end, rev):
        if kind(sub) != "s":
            raise TypeError(f"must be str, not {type(sub).__name__}")
        sub = SymStr.lift(sub).c
        # an unclamped start beyond the end finds nothing, not even ''
        if start is not None and E().fork(zi(start) > len(self.c)):
            return -1
        lo, hi = self._range(start, end)
        pos = range(lo, hi - len(sub) + 1)
        for i in reversed(pos) if rev else pos:
            if E().fork(self._at(i, sub)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = SymStr.lift(sub).c
        if start is not None and E().fork(zi(start) > len(self.c)):
            return 0
        lo, hi = self._range(start, end)
        if not sub:
            return max(hi - lo + 1, 0)
        n, i = 0, lo
        while i <= hi - len(sub):
            if E().fork(self._at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def _affix(self, p, start, end, suffix):
        if isinstance(p, tuple):
            for q in p:
                r = self._affix(q, start, end, suffix)
                if r is True or (r is not False and bool(r)):
                    return True
            return False
        if kind(p) != "s":
            raise TypeError("startswith first arg must be str or a tuple of str")
        p = SymStr.lift(p).c
        if start is not None and E().fork(zi(start) > len(self.c)):
            return False
        lo, hi = self._range(start, end)
        if hi - lo < len(p):
            return False
        return mkbool(self._at(hi - len(p) if suffix else lo, p))

    def startswith(self, p, start=None, end=None):
        return self._affix(p, start, end, False)

    def endswith(self, p, start=None, end=None):
        return self._affix(p, start, end, True)

    # case -------------------------------------------------------------
    def lower(self):
        return SymStr.make(_map_case(self.c, "lower"))

    def upper(self):
        return SymStr.make(_map_case(self.c, "upper"))

    def casefold(self):
        return SymStr.make(_map_case(self.c, "casefold"))

    def capitalize(self):
        if not self.c:
            return self
        return SymStr.make(_map_case(self.c[:1], "title") + _map_case(self.c[1:], "lower"))

    def swapcase(self):
        return SymStr.make(_map_case(self.c, "swapcase"))

    def title(self):
        out: list[Any] = []
        inside = False
        for c in self.c:
            out.extend(_map_case([c], "lower" if inside else "title"))
            r = in_ranges(c, _cased())
            inside = r if isinstance(r, bool) else E().fork(r)
        return SymStr.make(out)

    # padding -------------------------------------------------------------
    def _pad(self, width, fill, left, right):
        if len(fill) != 1:
            raise TypeError("The fill character must be exactly one character long")
        f = SymStr.lift(fill).c
        return SymStr.make([*f * left, *self.c, *f * right])

    def _room(self, width):
        width = E().concretise(width.t) if type(width) is SymInt else width.__index__()
        return max(0, width - len(self.c))

    def ljust(self, width, fill=" "):
        return self._pad(width, fill, 0, self._room(width))

    def rjust(self, width, fill=" "):
        return self._pad(width, fill, self._room(width), 0)

    def center(self, width, fill=" "):
        n = self._room(width)
        left = n // 2 + (n & (len(self.c) + n) & 1)
        return self._pad(width, fill, left, n - left)

    def zfill(self, width):
        n = self._room(width)
        if n and self.c and E().fork(z3.Or(_z(self.c[0]) == 43, _z(self.c[0]) == 45)):
            return SymStr.make([*self.c[:1], *[48] * n, *self.c[1:]])
        return SymStr.make([*[48] * n, *self.c])

    # stripping & splitting ---------------------------------------------
    def _strip(self, chars, left, right):
        if chars is None:
            ranges = _WS
        else:
            if kind(chars) != "s":
                raise TypeError("strip arg must be None or str")
            cs = SymStr.lift(chars).c
            ranges = [(x, x) for x in cs] if all(isinstance(x, int) for x in cs) else None
        a, b = 0, len(self.c)
        if ranges == []:
            return self

        def hit(c):
            r = z3.Or(*[_z(c) == _z(x) for x in cs]) if ranges is None else in_ranges(c, ranges)
            return r if isinstance(r, bool) else E().fork(r)

        if left:
            while a < b and hit(self.c[a]):
                a += 1
        if right:
            while b > a and hit(self.c[b - 1]):
                b -= 1
        return SymStr.make(self.c[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self.c) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        old, new = SymStr.lift(old).c, SymStr.lift(new).c
        out, i = [], 0
        if type(count) is SymInt:
            count = E().concretise(count.t)
        if not old:
            for i, c in enumerate(self.c):
                if count < 0 or i < count:
                    out.extend(new)
                out.append(c)
            if count < 0 or len(self.c) < count:
                out.extend(new)
            return SymStr.make(out)
        while i < len(self.c):
            if count != 0 and i + len(old) <= len(self.c) and E().fork(self._at(i, old)):
                out.extend(new)
                i += len(old)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return SymStr.make(out)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        n = len(self.c)
        while i < n:
            c = _z(self.c[i])
            if not E().fork(z3.Or(z3.And(c >= 10, c <= 13), z3.And(c >= 28, c <= 30), c == 0x85, c == 0x2028, c == 0x2029)):
                cur.append(self.c[i])
                i += 1
                continue
            end = self.c[i : i + 1]
            i += 1
            if i < n and E().fork(z3.And(c == 13, _z(self.c[i]) == 10)):
                end = end + self.c[i : i + 1]
                i += 1
            out.append(SymStr.make(cur + (end if keepends else [])))
            cur = []
        if cur:
            out.append(SymStr.make(cur))
        return out

    def translate(self, table):
        if type(table) is not dict:
            raise Unsupported("translate with a table that is not a dictionary")
        out: list[Any] = []
        for c in self.c:
            for k, v in table.items():
                if E().fork(_z(c) == k):
                    out.extend([] if v is None else [v] if isinstance(v, int) else SymStr.lift(v).c)
                    break
            else:
                out.append(c)
        return SymStr.make(out)

    def isprintable(self):
        return True if not self.c else self._all("isprintable")

    def isidentifier(self):
        if not self.c:
            return False
        start = _pred_ranges("isidentifier")
        rest = _ranges_of(lambda c: ("a" + chr(c)).isidentifier(), "identifier")
        return mkbool(_and([in_ranges(self.c[0], start)] + [in_ranges(c, rest) for c in self.c[1:]]))

    def split(self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        if type(maxsplit) is SymInt:
            maxsplit = E().concretise(maxsplit.t)
        if sep is None:
            for c in self.c:
                r = in_ranges(c, _WS)
                if (r if isinstance(r, bool) else E().fork(r)) and maxsplit < 0:
                    if cur:
                        out.append(SymStr.make(cur))
                    cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(SymStr.make(cur))
            if maxsplit >= 0:
                raise Unsupported("split(None, n)")
            return out
        s = SymStr.lift(sep).c
        if not s:
            raise ValueError("empty separator")
        while i < len(self.c):
            if maxsplit != 0 and i + len(s) <= len(self.c) and E().fork(self._at(i, s)):
                out.append(SymStr.make(cur))
                cur = []
                i += len(s)
                maxsplit -= 1
            else:
                cur.append(self.c[i])
                i += 1
        out.append(SymStr.make(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if maxsplit == 1 and sep is not None:
            a, m, b = self.rpartition(sep)
            return [a, b] if len(m) else [b]
        raise Unsupported("rsplit")

    def partition(self, sep):
        if not len(sep):
            raise ValueError("empty separator")
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        if not len(sep):
            raise ValueError("empty separator")
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def join(self, it):
        out: list[Any] = []
        for n, x in enumerate(it):
            if kind(x) != "s":
                raise TypeError(f"sequence item {n}: expected str instance")
            if n:
                out.extend(self.c)
            out.extend(SymStr.lift(x).c)
        return SymStr.make(out)

    def format(self, *a, **k):
        return str_format(self, a, k)

    def _all(self, pred: str):
        if not self.c:
            return False
        ranges = _pred_ranges(pred)
        return mkbool(_and(in_ranges(c, ranges) for c in self.c))

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isascii(self):
        return mkbool(_and(in_ranges(c, [(0, 127)]) for c in self.c))

    def islower(self):
        return bool(self == self.lower()) and bool(self != self.upper())

    def isupper(self):
        return bool(self == self.upper()) and bool(self != self.lower())

    def encode(self, encoding="utf-8", errors="strict"):
        from .models import str_encode

        return str_encode(self, encoding, errors)

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f"str.{name} on a symbolic string")
        raise AttributeError(f"'str' object has no attribute '{name}'")


_pred_cache: dict[str, list[tuple[int, int]]] = {}


def _ranges_of(f, key: str):
    """the characters of all domains with a property"""
    if key not in _pred_cache:
        out: list[tuple[int, int]] = []
        for lo, hi in _FULL:
            for c in range(lo, hi + 1):
                if f(c):
                    if out and out[-1][1] == c - 1:
                        out[-1] = (out[-1][0], c)
                    else:
                        out.append((c, c))
        _pred_cache[key] = out or [(-2, -2)]
    return _pred_cache[key]


def _pred_ranges(pred):
    return _ranges_of(lambda c: getattr(chr(c), pred)(), pred)


def _cased():
    return _ranges_of(lambda c: chr(c).isupper() or chr(c).islower(), "cased")


# ------------------------------------------------------- sequences & indexing
def clamp(v, n: int, default: int) -> int:
    """CPython's start/end adjustment for str methods (and step>0 slices)."""
    if v is None:
        return default
    if type(v) is SymBool:
        v = mkint(zi(v))
    if type(v) is not SymInt:
        v = v.__index__()
        if v < 0:
            v = max(0, v + n)
        return min(v, n)
    e = E()
    if e.fork(v.t >= n):
        return n
    if e.fork(v.t <= -n):
        return 0
    for k in range(-n + 1, n):
        if e.fork(v.t == k):
            return k if k >= 0 else k + n
    raise PathAbort()


def index_seq(seq, k, msg: str):
    n = len(seq)
    if type(k) is SymBool:
        k = mkint(zi(k))
    if type(k) is not SymInt:
        k = k.__index__()
        if not -n <= k < n:
            raise IndexError(msg)
        return seq[k]
    e = E()
    if e.fork(z3.Or(k.t >= n, k.t < -n)):
        raise IndexError(msg)
    for i in range(-n, n):
        if e.fork(k.t == i):
            return seq[i]
    raise PathAbort()


def _slice_part(v, n: int, step_neg: bool):
    if v is None:
        return None
    if type(v) is SymBool:
        v = mkint(zi(v))
    if type(v) is not SymInt:
        return v.__index__()
    e = E()
    # beyond these values the result does not change any more
    hi, lo = n + 1, -n - 1
    if e.fork(v.t >= hi):
        return hi
    if e.fork(v.t <= lo):
        return lo
    for k in range(lo + 1, hi):
        if e.fork(v.t == k):
            return k
    raise PathAbort()


def slice_seq(seq, sl: slice):
    for p in (sl.start, sl.stop, sl.step):
        if p is not None and kind(p) not in ("i", "b") and not hasattr(type(p), "__index__"):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    n = len(seq)
    step = sl.step
    if type(step) is SymInt or type(step) is SymBool:
        if E().fork(zi(step) == 0):
            raise ValueError("slice step cannot be zero")
    step = _slice_part(step, n, False)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    neg = step is not None and step < 0
    return seq[_slice_part(sl.start, n, neg) : _slice_part(sl.stop, n, neg) : step]


# ----------------------------------------------------------------- conversion
def sym_str(x):
    """str(x) for symbolic x."""
    k = kind(x)
    if k == "s":
        return x
    if k == "b":
        return "True" if E().fork(zb(x)) else "False"
    if k == "i":
        t = x.t
        e = E()
        neg = e.fork(t < 0)
        a = -t if neg else t
        for d in range(1, 20):
            if e.fork(a < 10**d):
                break
        else:
            raise Unsupported("str() of an integer of more than 19 digits")
        cs: list[Any] = [45] if neg else []
        for p in reversed(range(d)):
            cs.append(48 + (a / 10**p) % 10)
        return SymStr.make(cs)
    raise Unsupported("str() of a symbolic float")


def sym_int(x, base=None):
    k = kind(x)
    if k == "b":
        return mkint(zi(x))
    if k == "i":
        return x
    if k == "f":
        e = E()
        if e.fork(z3.fpIsNaN(x.t)):
            raise ValueError("cannot convert float NaN to integer")
        if e.fork(z3.fpIsInf(x.t)):
            raise OverflowError("cannot convert float infinity to integer")
        app = e.uf("float2int", (x.t,), z3.IntSort(), int, (fp_to_py,), z3.IntVal)
        return SymInt(app)
    if base is not None and base != 10:
        raise Unsupported("int(str, base)")
    s = x.strip()
    cs = list(SymStr.lift(s).c)
    e = E()
    bad = ValueError("invalid literal for int() with base 10")
    neg = False
    if cs:
        if e.fork(z3.BoolVal(True) if cs[0] == 45 else _z(cs[0]) == 45):
            neg = True
            cs = cs[1:]
        elif e.fork(_z(cs[0]) == 43):
            cs = cs[1:]
    if not cs:
        raise bad
    val: Any = z3.IntVal(0)
    prev_us = True  # an underscore may not lead
    for c in cs:
        if e.fork(z3.And(_z(c) >= 48, _z(c) <= 57)):
            val = val * 10 + (_z(c) - 48)
            prev_us = False
        elif not prev_us and e.fork(_z(c) == 95):
            prev_us = True
        else:
            raise bad
    if prev_us:
        raise bad
    return mkint(-val if neg else val)


def sym_float(x):
    k = kind(x)
    if k in ("b", "i"):
        return SymFloat(zf(x))
    if k == "f":
        return x
    e = E()
    s = SymStr.lift(x.strip())
    cs = list(s.c)
    # [+-] digits [. digits]   (exponents, inf and nan: not encoded)
    i = 0
    if cs and e.fork(z3.Or(_z(cs[0]) == 45, _z(cs[0]) == 43)):
        i = 1
    nd, seen_dot = 0, False
    for c in cs[i:]:
        if e.fork(z3.And(_z(c) >= 48, _z(c) <= 57)):
            nd += 1
        elif not seen_dot and e.fork(_z(c) == 46):
            seen_dot = True
        else:
            special = z3.Or(*[_z(c) == ord(q) for q in "eEiInN_"])
            if e.fork(special):
                raise Unsupported("float() of exponent/inf/nan/underscore text")
            raise ValueError("could not convert string to float")
    if not nd:
        raise ValueError("could not convert string to float")
    args = tuple(_z(c) for c in cs)
    if nd <= 2:
        # a table of all values
        digits, after, dot, neg = z3.IntVal(0), 0, False, z3.BoolVal(False)
        for k, c in enumerate(cs):
            if k < i:
                neg = _z(c) == 45
            elif e.fork(_z(c) == 46):
                dot = True
            else:
                digits = digits * 10 + (_z(c) - 48)
                after += dot

        def table(lo, hi, sign):
            if hi - lo == 1:
                return _fval(float(f"{sign}{lo}e-{after}"))
            mid = (lo + hi) // 2
            return z3.If(digits < mid, table(lo, mid, sign), table(mid, hi, sign))

        t = table(0, 10**nd, "+")
        return SymFloat(z3.If(neg, table(0, 10**nd, "-"), t) if i else t)
    app = e.uf(
        f"float_of_str{len(cs)}",
        args,
        F64,
        lambda *v: float("".join(map(chr, v))),
        tuple(_int_dec for _ in cs),
        _fval,
    )
    e.add(z3.Not(z3.fpIsNaN(app)))
    return SymFloat(app)


def sym_bool(x):
    if type(x) is SymBool:
        return x
    k = kind(x)
    if k == "i":
        return mkbool(x.t != 0)
    if k == "f":
        return mkbool(z3.Not(z3.fpIsZero(x.t)))
    return bool(x)


def str_or_opaque(x):
    """Text of x inside a format: exact for strings, opaque for numbers."""
    if isinstance(x, OpaqueStr):
        return x
    if kind(x) == "s":
        return x
    if is_sym(x):
        return OpaqueStr(f"<{kind(x)}:sym>")
    r = str(x)
    return r


def concat(parts):
    if any(isinstance(p, OpaqueStr) for p in parts):
        return OpaqueStr("".join("<sym>" if is_sym(p) else str.__str__(p) for p in parts))
    if any(is_sym(p) for p in parts):
        out: list[Any] = []
        for p in parts:
            out.extend(SymStr.lift(p).c)
        return SymStr.make(out)
    return "".join(parts)


def str_format(fmt, args, kwargs):
    import string

    if type(fmt) is SymStr:
        raise Unsupported("symbolic format string")
    parts: list[Any] = []
    auto = 0
    f = string.Formatter()
    for lit, field, spec, conv in f.parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        obj, _ = f.get_field(field, args, kwargs)
        if conv == "r":
            obj = OpaqueStr(repr(obj)) if _deep_sym(obj) else repr(obj)
        elif conv == "s":
            obj = str_or_opaque(obj)
        if is_sym(obj):
            parts.append(str_or_opaque(obj) if not spec else OpaqueStr("<sym>"))
        else:
            from .rt import sv_str

            r = sv_str(obj) if not spec else format(obj, spec)
            parts.append(r)
    return concat(parts)


def percent_format(fmt, args):
    if isinstance(args, tuple):
        vals = list(args)
    else:
        vals = [args]
    if type(fmt) is SymStr:
        raise Unsupported("symbolic format string")
    out: list[Any] = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            c = fmt[i + 1]
            if c == "%":
                out.append("%")
            elif c == "s":
                from .rt import sv_str

                v = vals.pop(0)
                out.append(str_or_opaque(v) if is_sym(v) else sv_str(v))
            elif c == "r":
                v = vals.pop(0)
                out.append(OpaqueStr("<sym>") if _deep_sym(v) else repr(v))
            elif c in "di":
                v = vals.pop(0)
                out.append(OpaqueStr("<sym>") if is_sym(v) else "%d" % v)
            else:
                raise Unsupported("percent format")
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return concat(out)


def _deep_sym(x, depth=3) -> bool:
    if is_sym(x) or isinstance(x, OpaqueStr):
        return True
    if depth == 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(_deep_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(_deep_sym(y, depth - 1) for kv in x.items() for y in kv)
    return False
