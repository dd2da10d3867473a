"""Encodings of the C-level library code the repository calls on text: codecs,
regular expressions (from the parsed pattern of the real `re.Pattern`), paths.

All of them are compared with the real functions by `selftest.py`.
"""

from __future__ import annotations

import re
from typing import Any

import z3

from .engine import Unsupported
from .values import (
    E,
    OpaqueStr,
    SymBase,
    SymStr,
    _FULL,
    _norm,
    _z,
    in_ranges,
    is_sym,
    kind,
    mkint,
)

try:
    from re import _constants as sc  # type: ignore
    from re import _parser as sp  # type: ignore
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse as sp


def _is(c, ranges) -> bool:
    r = in_ranges(c, ranges)
    return r if isinstance(r, bool) else E().fork(r)


def _eq(c, v: int) -> bool:
    return c == v if isinstance(c, int) else E().fork(c == v)


# --------------------------------------------------------------------- codecs
class SymBytes(SymBase):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(_norm(x) for x in b)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.b)

    def __add__(self, o):
        return SymBytes(self.b + (o.b if type(o) is SymBytes else tuple(o)))

    def __radd__(self, o):
        return SymBytes(tuple(o) + self.b)

    def __iter__(self):
        return iter([x if isinstance(x, int) else mkint(x) for x in self.b])

    def __repr__(self):
        return OpaqueStr("<bytes:sym>")

    def decode(self, encoding="utf-8", errors="strict"):
        return codecs_decode(self, encoding, errors)

    def __getattr__(self, n):
        raise Unsupported(f"bytes.{n} on symbolic bytes")


def _enc_name(e: str) -> str:
    e = e.lower().replace("-", "_")
    return {
        "utf8": "utf_8",
        "latin1": "latin_1",
        "iso_8859_1": "latin_1",
        "iso8859_1": "latin_1",
        "unicodeescape": "unicode_escape",
        "raw_unicode_escape": "raw",
    }.get(e, e)


def _hexdigit(t):
    return _norm(z3.If(t < 10, 48 + t, 87 + t)) if not isinstance(t, int) else (48 + t if t < 10 else 87 + t)


def _hex(c, n):
    out = []
    for k in reversed(range(n)):
        if isinstance(c, int):
            out.append(ord("0123456789abcdef"[(c >> (4 * k)) & 15]))
        else:
            out.append(_hexdigit(_norm((c / 16**k) % 16)))
    return out


def _utf8(c) -> list[Any]:
    z = _z(c)
    if _is(c, [(0, 0x7F)]):
        return [c]
    if _is(c, [(0x80, 0x7FF)]):
        return [192 + z / 64, 128 + z % 64]
    if _is(c, [(0xD800, 0xDFFF)]):
        raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
    if _is(c, [(0x800, 0xFFFF)]):
        return [224 + z / 4096, 128 + (z / 64) % 64, 128 + z % 64]
    return [240 + z / 262144, 128 + (z / 4096) % 64, 128 + (z / 64) % 64, 128 + z % 64]


def str_encode(s, encoding="utf-8", errors="strict"):
    s = SymStr.lift(s)
    enc = _enc_name(encoding)
    out: list[Any] = []
    if enc == "utf_8":
        for c in s.c:
            out.extend(_utf8(c))
    elif enc in ("latin_1", "ascii"):
        top = 255 if enc == "latin_1" else 127
        for c in s.c:
            if _is(c, [(0, top)]):
                out.append(c)
            elif errors == "backslashreplace":
                if _is(c, [(0, 0xFF)]):
                    out += [92, 120] + _hex(c, 2)
                elif _is(c, [(0x100, 0xFFFF)]):
                    out += [92, 117] + _hex(c, 4)
                else:
                    out += [92, 85] + _hex(c, 8)
            elif errors == "ignore":
                pass
            elif errors == "replace":
                out.append(63)
            elif errors == "strict":
                raise UnicodeEncodeError(encoding, "?", 0, 1, "ordinal not in range")
            else:
                raise Unsupported(f"encode errors={errors}")
    elif enc == "unicode_escape":
        for c in s.c:
            for v, r in ((9, "\\t"), (10, "\\n"), (13, "\\r"), (92, "\\\\")):
                if _eq(c, v):
                    out += [ord(x) for x in r]
                    break
            else:
                if _is(c, [(32, 126)]):
                    out.append(c)
                elif _is(c, [(0, 255)]):
                    out += [92, 120] + _hex(c, 2)
                elif _is(c, [(0x100, 0xFFFF)]):
                    out += [92, 117] + _hex(c, 4)
                else:
                    out += [92, 85] + _hex(c, 8)
    elif enc == "raw":
        for c in s.c:
            if _is(c, [(0, 255)]):
                out.append(c)
            elif _is(c, [(0x100, 0xFFFF)]):
                out += [92, 117] + _hex(c, 4)
            else:
                out += [92, 85] + _hex(c, 8)
    else:
        raise Unsupported(f"encode {encoding}")
    if all(isinstance(_norm(x), int) for x in out):
        return bytes(_norm(x) for x in out)
    return SymBytes(out)


_HEX = [(48, 57), (65, 70), (97, 102)]


def _hexval(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def _unescape(b) -> list[Any]:
    out: list[Any] = []
    i, n = 0, len(b)

    def err(msg):
        return UnicodeDecodeError("unicodeescape", b"?", 0, 1, msg)

    simple = {10: [], 92: [92], 39: [39], 34: [34], 98: [8], 102: [12], 116: [9], 110: [10], 114: [13], 118: [11], 97: [7]}
    while i < n:
        c = b[i]
        i += 1
        if not _eq(c, 92):
            out.append(c)
            continue
        if i >= n:
            raise err("\\ at end of string")
        c = b[i]
        i += 1
        for v, r in simple.items():
            if _eq(c, v):
                out += r
                break
        else:
            if _is(c, [(48, 55)]):
                v: Any = _z(c) - 48
                for _ in range(2):
                    if i < n and _is(b[i], [(48, 55)]):
                        v = v * 8 + (_z(b[i]) - 48)
                        i += 1
                    else:
                        break
                out.append(v)
                continue
            for letter, cnt in ((120, 2), (117, 4), (85, 8)):
                if _eq(c, letter):
                    v = z3.IntVal(0)
                    for k in range(cnt):
                        if i < n and _is(b[i], _HEX):
                            v = v * 16 + _hexval(b[i])
                            i += 1
                        else:
                            raise err("truncated escape")
                    v = _norm(v)
                    if cnt == 8 and not _is(v, [(0, 0x10FFFF)]):
                        raise err("illegal Unicode character")
                    out.append(v)
                    break
            else:
                if _eq(c, 78):
                    if i >= n or not _eq(b[i], 123):
                        raise err("malformed \\N character escape")
                    raise Unsupported("\\N{...} escape")
                out += [92, c]
    return out


def codecs_decode(x, encoding="utf-8", errors="strict"):
    enc = _enc_name(encoding)
    if isinstance(x, OpaqueStr):
        raise Unsupported("content of a formatted message inspected")
    if kind(x) == "s":
        if enc != "unicode_escape":
            raise Unsupported(f"codecs.decode(str, {encoding})")
        x = str_encode(x, "utf-8")
    b = x.b if type(x) is SymBytes else tuple(x)
    if enc == "unicode_escape":
        if errors != "strict":
            raise Unsupported("unicode_escape with error handler")
        return SymStr.make(_unescape(b))
    if enc == "latin_1":
        return SymStr.make(b)
    if enc == "ascii":
        for c in b:
            if not _is(c, [(0, 127)]):
                raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
        return SymStr.make(b)
    if enc == "utf_8":
        out: list[Any] = []
        i = 0
        while i < len(b):
            c = b[i]
            if _is(c, [(0, 127)]):
                out.append(c)
                i += 1
            elif _is(c, [(0xC2, 0xDF)]) and i + 1 < len(b) and _is(b[i + 1], [(0x80, 0xBF)]):
                out.append((_z(c) - 192) * 64 + _z(b[i + 1]) - 128)
                i += 2
            else:
                raise Unsupported("decoding longer UTF-8 sequences")
        return SymStr.make(out)
    raise Unsupported(f"decode {encoding}")


# ---------------------------------------------------------------------- paths
class SymPath:
    """PurePosixPath of one symbolic text: name, suffix, stem and str() only."""

    def __init__(self, s):
        self._s = SymStr.lift(s)

    @property
    def name(self):
        # components are separated by '/', empty ones and '.' are dropped
        parts: list[list[Any]] = [[]]
        for c in self._s.c:
            if _eq(c, 47):
                parts.append([])
            else:
                parts[-1].append(c)
        parts = [p for p in parts if p and not (len(p) == 1 and _eq(p[0], 46))]
        return SymStr.make(parts[-1]) if parts else ""

    @property
    def suffix(self):
        name = self.name
        i = name.rfind(".")
        return name[i:] if 0 < i < len(name) - 1 else ""

    @property
    def stem(self):
        name = self.name
        i = name.rfind(".")
        return name[:i] if 0 < i < len(name) - 1 else name

    def __getattr__(self, n):
        raise Unsupported(f"Path.{n} of symbolic text")


# --------------------------------------------------------------------- regex
_node_ranges: dict[Any, list[tuple[int, int]]] = {}


def _cat_ranges(pred) -> list[tuple[int, int]]:
    out: list[tuple[int, int]] = []
    for lo, hi in [(0, 0x17F), *_FULL]:
        for c in range(lo, hi + 1):
            if pred(c) and not any(a <= c <= b for a, b in out):
                if out and out[-1][1] == c - 1:
                    out[-1] = (out[-1][0], c)
                else:
                    out.append((c, c))
    return out


def _cat(cat, flags):
    key = (str(cat), flags & re.ASCII)
    if key not in _node_ranges:
        esc = {
            "CATEGORY_DIGIT": r"\d",
            "CATEGORY_NOT_DIGIT": r"\D",
            "CATEGORY_SPACE": r"\s",
            "CATEGORY_NOT_SPACE": r"\S",
            "CATEGORY_WORD": r"\w",
            "CATEGORY_NOT_WORD": r"\W",
        }[str(cat)]
        p = re.compile(esc, flags & re.ASCII)
        _node_ranges[key] = _cat_ranges(lambda c: p.fullmatch(chr(c)) is not None)
    return _node_ranges[key]


class _Matcher:
    def __init__(self, pat: re.Pattern, chars):
        self.p = pat
        self.flags = pat.flags
        self.s = chars
        self.n = len(chars)
        self.tree = sp.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, str) else 0)

    def one(self, op, av, c) -> bool:
        """does the single-character node match character c?"""
        if self.flags & re.IGNORECASE and not isinstance(c, int):
            key = ("ic", str(op), str(av))
            if key not in _node_ranges:
                _node_ranges[key] = _cat_ranges(lambda k: self.one(op, av, k))
            return _is(c, _node_ranges[key])
        if isinstance(c, int) and self.flags & re.IGNORECASE:
            # let the real engine decide
            st = sp.State()
            st.str = self.p.pattern
            cs = {c, *(ord(x) for x in (chr(c).lower() + chr(c).upper()))}
            return any(self._one(op, av, x) for x in cs)
        return self._one(op, av, c)

    def _one(self, op, av, c) -> bool:
        if op is sc.LITERAL:
            return _eq(c, av)
        if op is sc.NOT_LITERAL:
            return not _eq(c, av)
        if op is sc.ANY:
            return bool(self.flags & re.DOTALL) or not _eq(c, 10)
        if op is sc.IN:
            neg = False
            ranges: list[tuple[int, int]] = []
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    ranges.append((a, a))
                elif o is sc.RANGE:
                    ranges.append(tuple(a))
                elif o is sc.CATEGORY:
                    ranges.extend(_cat(a, self.flags))
                else:
                    raise Unsupported(f"regex set {o}")
            return _is(c, ranges) != neg
        raise Unsupported(f"regex node {op}")

    def seq(self, nodes, i, g):
        """generator of (end, groups) for the node list from position i."""
        if not nodes:
            yield i, g
            return
        (op, av), rest = nodes[0], nodes[1:]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < self.n and self.one(op, av, self.s[i]):
                yield from self.seq(rest, i + 1, g)
        elif op is sc.SUBPATTERN:
            grp, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline regex flags")
            for j, g2 in self.seq(list(sub), i, g):
                if grp is not None:
                    g2 = {**g2, grp: (i, j)}
                yield from self.seq(rest, j, g2)
        elif op is sc.BRANCH:
            for alt in av[1]:
                for j, g2 in self.seq(list(alt), i, g):
                    yield from self.seq(rest, j, g2)
        elif op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
            lo, hi, sub = av
            yield from self.rep(list(sub), lo, hi, 0, rest, i, g, op is sc.MAX_REPEAT, -1)
        elif op is getattr(sc, "ATOMIC_GROUP", object()):
            for j, g2 in self.seq(list(av), i, g):
                yield from self.seq(rest, j, g2)
                return
        elif op is getattr(sc, "POSSESSIVE_REPEAT", object()):
            lo, hi, sub = av
            for j, g2 in self.rep(list(sub), lo, hi, 0, [], i, g, True, -1):
                yield from self.seq(rest, j, g2)
                return
        elif op is sc.AT:
            if self.at(av, i):
                yield from self.seq(rest, i, g)
        elif op is sc.ASSERT or op is sc.ASSERT_NOT:
            d, sub = av
            found = None
            if d > 0:
                for j, g2 in self.seq(list(sub), i, g):
                    found = g2
                    break
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("variable look-behind")
                if i - lo >= 0:
                    for j, g2 in self.seq(list(sub), i - lo, g):
                        found = g2
                        break
            if (found is not None) == (op is sc.ASSERT):
                yield from self.seq(rest, i, found if op is sc.ASSERT else g)
        elif op is sc.GROUPREF:
            if av in g:
                a, b = g[av]
                k = i
                for c in self.s[a:b]:
                    if k >= self.n:
                        return
                    x = self.s[k]
                    same = c == x if isinstance(c, int) and isinstance(x, int) else E().fork(_z(c) == _z(x))
                    if not same:
                        return
                    k += 1
                yield from self.seq(rest, k, g)
        else:
            raise Unsupported(f"regex node {op}")

    def rep(self, sub, lo, hi, cnt, rest, i, g, greedy, last):
        more = (hi is sc.MAXREPEAT or cnt < hi) and not (cnt >= lo and i == last)

        def again():
            for j, g2 in self.seq(sub, i, g):
                yield from self.rep(sub, lo, hi, cnt + 1, rest, j, g2, greedy, i)

        if greedy and more:
            yield from again()
        if cnt >= lo:
            yield from self.seq(rest, i, g)
        if not greedy and more:
            yield from again()

    def at(self, av, i) -> bool:
        ml = bool(self.flags & re.MULTILINE)
        if av is sc.AT_BEGINNING_STRING or (av is sc.AT_BEGINNING and not ml):
            return i == 0
        if av is sc.AT_BEGINNING:
            return i == 0 or _eq(self.s[i - 1], 10)
        if av is sc.AT_END_STRING:
            return i == self.n
        if av is sc.AT_END:
            if i == self.n:
                return True
            if ml:
                return _eq(self.s[i], 10)
            return i == self.n - 1 and _eq(self.s[i], 10)
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            w = _cat(sc.CATEGORY_WORD, self.flags)
            a = i > 0 and _is(self.s[i - 1], w)
            b = i < self.n and _is(self.s[i], w)
            return (a != b) == (av is sc.AT_BOUNDARY)
        raise Unsupported(f"regex anchor {av}")

    def match_at(self, i, full=False):
        for j, g in self.seq(list(self.tree), i, {}):
            if not full or j == self.n:
                return SymMatch(self, i, j, g)
        return None


class SymMatch:
    def __init__(self, m, i, j, g):
        self.m, self.i, self.j, self.g = m, i, j, dict(g)
        self.g[0] = (i, j)
        self.re = m.p
        self.string = SymStr.make(m.s)
        self.pos, self.endpos = 0, m.n

    def _gi(self, k):
        if isinstance(k, str):
            if k not in self.m.p.groupindex:
                raise IndexError("no such group")
            return self.m.p.groupindex[k]
        if k > self.m.p.groups:
            raise IndexError("no such group")
        return k

    def _one(self, k):
        k = self._gi(k)
        if k not in self.g:
            return None
        a, b = self.g[k]
        return SymStr.make(self.m.s[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        out = []
        for k in range(1, self.m.p.groups + 1):
            v = self._one(k)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {n: (default if self._one(n) is None else self._one(n)) for n in self.m.p.groupindex}

    def span(self, k=0):
        return self.g.get(self._gi(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]


def _template(pat, repl, m: SymMatch):
    """expand a replacement template"""
    if is_sym(repl):
        raise Unsupported("symbolic replacement template")
    out: list[Any] = []
    i = 0
    while i < len(repl):
        c = repl[i]
        if c != "\\":
            out.append(ord(c))
            i += 1
            continue
        mm = re.compile(r"\\g<(\w+)>|\\(\d{1,2})").match(repl, i)
        if mm:
            ref = mm.group(1) or mm.group(2)
            v = m._one(int(ref) if ref.isdigit() else ref)
            if v is not None:
                out.extend(SymStr.lift(v).c)
            i = mm.end()
            continue
        n = repl[i + 1 : i + 2]
        esc = {"n": 10, "t": 9, "r": 13, "\\": 92, "a": 7, "b": 8, "f": 12, "v": 11}
        if n in esc:
            out.append(esc[n])
            i += 2
        else:
            raise re.error("bad escape in template")
    return out


def _iter(pat, s):
    mt = _Matcher(pat, SymStr.lift(s).c)
    pos, advance = 0, False
    while pos <= mt.n:
        m = None
        for at in range(pos, mt.n + 1):
            for j, g in mt.seq(list(mt.tree), at, {}):
                # after an empty match the next one is not empty at the same place
                if not advance or at > pos or j > at:
                    m = SymMatch(mt, at, j, g)
                    break
            if m is not None:
                break
        if m is None:
            return
        yield m
        advance = m.i == m.j
        pos = m.j


def pattern_call(pat, name, a, k):
    if name in ("match", "fullmatch", "search"):
        s = a[0]
        if len(a) > 1 or k:
            raise Unsupported("Pattern.match with positions")
        mt = _Matcher(pat, SymStr.lift(s).c)
        if name == "search":
            for i in range(mt.n + 1):
                m = mt.match_at(i)
                if m is not None:
                    return m
            return None
        return mt.match_at(0, name == "fullmatch")
    if name in ("sub", "subn"):
        repl, s = a[0], a[1]
        count = a[2] if len(a) > 2 else k.get("count", 0)
        out: list[Any] = []
        pos = n = 0
        src = SymStr.lift(s).c
        for m in _iter(pat, s):
            out.extend(src[pos : m.i])
            if callable(repl):
                from .rt import call

                out.extend(SymStr.lift(call(repl, m)).c)
            else:
                out.extend(_template(pat, repl, m))
            pos = m.j
            n += 1
            if count and n >= count:
                break
        out.extend(src[pos:])
        r = SymStr.make(out)
        return (r, n) if name == "subn" else r
    if name == "finditer":
        return _iter(pat, a[0])
    if name == "findall":
        res: list[Any] = []
        for m in _iter(pat, a[0]):
            if pat.groups == 0:
                res.append(m.group())
            elif pat.groups == 1:
                res.append(m.groups("")[0])
            else:
                res.append(m.groups(""))
        return res
    if name == "split":
        src = SymStr.lift(a[0]).c
        maxsplit = a[1] if len(a) > 1 else k.get("maxsplit", 0)
        res, pos, n = [], 0, 0
        for m in _iter(pat, a[0]):
            res.append(SymStr.make(src[pos : m.i]))
            res.extend(m.groups())
            pos = m.j
            n += 1
            if maxsplit and n >= maxsplit:
                break
        res.append(SymStr.make(src[pos:]))
        return res
    raise Unsupported(f"Pattern.{name} on symbolic text")
