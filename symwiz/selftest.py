"""Compares the encodings of Python operations with Python itself.

Every case is a Python expression over typed variables.  It is rewritten and
executed on symbolic variables exactly like the code under test; on every path
(up to a limit) models of the path condition are taken, and the value of the
symbolic result in the model must be what plain Python computes for the model's
inputs, type included (or the exception must have the same type).

    python -m symwiz.selftest [substring]
"""

from __future__ import annotations

import codecs
import collections
import functools
import itertools
import math
import multiprocessing as mp
import operator
import os
import pathlib
import random
import re
import string
import sys
import time

import z3

from . import engine as en
from . import instrument, models, rt
from .api import Symbolic
from .values import DOMAINS, OpaqueStr, SymBase, SymBool, SymFloat, SymInt, SymStr, fp_to_py

NS = dict(
    codecs=codecs, collections=collections, functools=functools, itertools=itertools, math=math, operator=operator,
    pathlib=pathlib, re=re, string=string, os=os,
)

S1, S2, S3, U1, U2, D3, I, I5, F, B = "s1", "s2", "s3", "u1", "u2", "d3", "i", "i5", "f", "b"


def cases():
    out = []

    def add(expr, **vs):
        out.append((expr, vs))

    add("getattr('x', 'is' + a, 5) == 5", a="s2")
    add("hasattr('x', a + 'n') or hasattr('x', 'i' + a)", a=D3)
    # numbers
    for x in (I, F, B):
        for y in (I, F, B):
            for op in ("+", "-", "*", "<", "<=", ">", ">=", "==", "!="):
                if x == I and y == I or op not in "*":
                    add(f"a {op} b", a=x, b=y)
            if F not in (x, y):
                for op in ("/", "//", "%"):
                    add(f"a {op} b if b else None", a=x, b=y)
    for op in ("/", "//", "%", "*"):
        add(f"a {op} b if b else None", a=F, b="f3")
        add(f"a {op} b if b else None", a="f3", b=F)
        add(f"a {op} b if b else None", a=I5, b=F)
    for op in ("/", "//", "%", "-", "+", "<", "=="):
        add(f"a {op} b", a="z", b="z")
    add("divmod(a, b) if b else None", a=I, b=I5)
    add("a ** b", a=I5, b="n3")
    add("a ** b", a="f3", b="n3")
    for e in ("-a", "+a", "not a", "abs(a)", "bool(a)", "str(a)", "int(a)", "float(a)", "a == a", "a is a", "(a, a)[0]", "[a][0]", "isinstance(a, int)", "isinstance(a, bool)",
              "isinstance(a, float)", "type(a)", "type(a) is int", "f'{a}'", "'{}'.format(a)", "'%s' % a", "a or 7", "a and 7", "1 if a else 2", "max(a, 1)", "min(1, a)", "a.__class__", "a + True", "True + a",
              "a < 1 < 2", "sum([a, 1])", "a in (1, 2, True)", "a == 'x'", "hash(a) == hash(a)", "a + 'x'", "'x' * 2 if a else ''", "repr(a)", "math.floor(a)", "math.ceil(a)", "math.trunc(a)", "math.fabs(a)",
              "a == None", "a is None", "a not in [3]", "operator.add(a, 1)", "functools.reduce(operator.mul, [a, 2])", "[x for x in [a, 2] if x]", "sorted([a, 2, 1])", "any([a, False])", "all([a, True])", "a.real"):
        for x in (I, F, B, "z"):
            if x == F and e in ("str(a)", "repr(a)", "f'{a}'", "'{}'.format(a)", "'%s' % a", "hash(a) == hash(a)", "a.real"):
                continue
            add(e, a="f3" if x == F and ("math.floor" in e or "ceil" in e or "trunc" in e) else x)
    for e in ("~a", "a & 6", "a | 1", "a ^ 3", "range(a)[0]", "list(range(a))", "list(range(a, 3))", "list(range(0, a, 2))", "list(range(3, a, -1))", "'abc'[a]", "[1, 2, 3][a]", "'ab' * a", "[0] * a",
              "a.bit_length()", "[1, 2, 3][a:]", "'abcd'[:a]", "'abcd'[::a]", "(1, 2, 3)[a:3:2]", "[*range(5)][a:a + 2]", "list(enumerate('ab', a))", "2 in range(a)", "a in range(1, 9, 3)", "{1: 'x', 2: 'y'}.get(a)", "{1: 'x'}[a]",
              "{a: 1, 2: 3}", "{a, 1, 2}", "a in {1, 2}", "len({a, 1})", "[1, 2, 1].index(a)", "[1, 2, 1].count(a)", "(1, 2).index(a)", "chr(a + 70)", "list(range(a)) + [a]", "round(a)", "list(reversed(range(a)))", "list(zip(range(a), 'abc'))"):
        add(e, a=I5)
    for e in ("math.sqrt(a)", "a.is_integer()", "math.isnan(a)", "math.isinf(a)", "math.isfinite(a)", "round(a)", "int(a)", "float(a)", "math.fmod(a, 2)", "a == int(a)"):
        add(e, a="f3")
    add("math.fmod(a, b)", a=F, b="f3")
    # strings: one argument
    one = ("len(a)", "not a", "bool(a)", "a.lower()", "a.upper()", "a.casefold()", "a.capitalize()", "a.title()", "a.swapcase()", "a.strip()", "a.lstrip()", "a.rstrip()", "a.isdigit()", "a.isdecimal()", "a.isalpha()",
           "a.isalnum()", "a.isspace()", "a.isascii()", "a.islower()", "a.isupper()", "a.isnumeric()", "a.split()", "a.rsplit()", "list(a)", "tuple(a)", "a[::-1]", "a[0]", "a[-1]", "a[1:]", "a[:-1]", "a[0:1]", "a + 'x'",
           "'x' + a", "a * 2", "2 * a", "a == 'ab'", "a != 'a'", "a < 'b'", "a <= 'b'", "a > 'b'", "a >= 'b'", "'a' < a", "'a' in a", "'' in a", "a in 'abcd'", "a in ('a', 'b')", "str(a)", "f'<{a}>'", "'<{}>'.format(a)", "'<{x}>'.format(x=a)",
           "'<%s>' % a", "'%s-%s' % (a, a)", "a.encode('utf-8')", "a.encode('latin-1')", "a.encode('ascii')", "a.encode('utf-8', 'replace')", "a.encode('ascii', 'backslashreplace')", "a.encode().decode()", "[ord(c) for c in a]", "''.join(sorted(a))", "a.replace('a', 'bb')", "a.replace('', '-')", "a.replace('a', '', 1)",
           "a.startswith('a')", "a.startswith(('a', 'b'))", "a.startswith('')", "a.endswith('b')", "a.endswith(('', 'b'))", "a.find('a')", "a.rfind('a')", "a.find('')", "a.rfind('')", "a.count('a')", "a.count('')", "a.index('a')", "a.rindex('b')", "a.split('a')", "a.split('a', 1)",
           "a.rsplit('a', 1)", "a.partition('a')", "a.rpartition('a')", "a.splitlines()", "a.strip('ab')", "a.lstrip('a')", "a.rstrip('b')", "a.removeprefix('a')", "a.removesuffix('b')", "a.join(['x', 'y', 'z'])", "','.join(a)", "','.join([a, a])", "a.zfill(3)", "a.ljust(3)", "a.center(4, '*')", "a.rjust(3, '.')",
           "{a: 1}", "{a, 'a'}", "a in {'a', 'b'}", "{'a': 1, 'b': 2}.get(a, 3)", "{'a': 1}[a]", "hash(a) == hash(a)", "a is a", "type(a)", "isinstance(a, str)", "sorted([a, 'a', 'b'])", "max(a, 'a')", "min([a, 'b'])", "[*a, 1]", "list(map(ord, a))", "list(zip(a, 'xy'))", "list(enumerate(a))",
           "list(reversed(a))", "any(c == 'a' for c in a)", "all(c == 'a' for c in a)", "[c for c in a if c != 'a']", "{c: 1 for c in a}", "{c for c in a}", "collections.Counter(a)['a']", "dict.fromkeys(a)", "a or 'x'", "a and 'x'", "a == 1", "a + 1", "a < 1", "a.lower().upper()", "str.lower(a)", "a[5:]", "a[::2]", "a[5]",
           "a.partition('b')[2]", "a.translate(str.maketrans('ab', 'xy'))", "a.expandtabs()", "pathlib.Path(a + 'q').name", "pathlib.PurePosixPath('d/' + a + 'q').suffix", "os.path.basename(a)", "a.isidentifier()", "a.isprintable()", "a.istitle()", "operator.eq(a, 'a')", "operator.contains(a, 'a')",
           "operator.itemgetter(0)(a)", "operator.methodcaller('lower')(a)", "functools.partial(str.replace, a)('a', 'c')", "functools.reduce(lambda x, y: y + x, a, '')", "[1, 2][len(a)]", "a.format()", "''.join(c for c in a if c.isalpha())", "a.casefold() == 'ss'", "len(a.casefold())")
    for e in one:
        add(e, a=S2)
        add(e, a="w3")
        if "title" not in e and "swapcase" not in e and "center" not in e:
            add(e, a=U2 if "casefold" not in e and "sorted" not in e else U1)
    # strings: two
    for e in ("a + b", "a == b", "a != b", "a < b", "a <= b", "a in b", "a.find(b)", "a.rfind(b)", "a.startswith(b)", "a.endswith(b)", "a.count(b)", "a.replace(b, 'x')", "a.replace('a', b)", "a.split(b)", "a.rsplit(b)", "a.partition(b)", "a.rpartition(b)",
              "a.strip(b)", "a.index(b)", "a.removeprefix(b)", "a.removesuffix(b)", "b.join(['x', a, 'y'])", "{a: 1, b: 2}", "{a, b}", "[a, b].index(b)", "[a].count(b)", "a.casefold() == b.casefold()", "a.lower() < b.lower()", "sorted([a, b])", "dict([(a, 1)]).get(b)", "{a: 1}.pop(b, 0)", "a + b == b + a", "len(a + b)",
              "{a} | {b}", "{a} & {b}", "{a} - {b}", "{a} ^ {b}", "{a} <= {b}", "set([a, b]) == {b}", "{**{a: 1}, b: 2}", "f'{a}{b}'", "'{1}{0}'.format(a, b)", "'%s%s' % (a, b)", "a or b", "max(a, b)", "(a, 1) == (b, 1)", "(a, 1) < (b, 0)", "[a] == [b]", "a.join(b)", "str(a) + str(b)"):
        add(e, a="t2", b="t1")
        add(e, a="t1", b="t2")
        if "casefold" not in e:
            add(e, a=U1, b=U1)
    for e in ("a.find(b, i)", "a.rfind(b, i)", "a.find(b, i, 2)", "a.rfind(b, 1, i)", "a.count(b, i)", "a.startswith(b, i)", "a.endswith(b, i)", "a.endswith(b, 0, i)", "a.startswith((b, 'x'), i, 3)", "a[i]", "a[i:]", "a[:i]", "a[i::-1]", "a[i:i + 1]", "a.index(b, i)", "a.rindex(b, 0, i)", "a.replace(b, '', i)", "a.split(b, i)", "a * i"):
        add(e, a="t3", b="t1", i=I5)
    # conversions
    for e in ("int(a)", "float(a)", "int(a, 16)"):
        add(e, a="d3")
        add(e, a="d2")
    add("int(a)", a=U1)
    # regular expressions
    for p in (r"a", r"^a", r"b$", r"a*", r"a+b", r"[ab]+", r"[^a]", r"(a)(b)?", r"(a|b)", r"(?i)A", r"\d", r"\w+", r"\s", r"\W", r"a{2}", r"a{1,2}?", r"(?P<x>a)b", r"\ba", r"(a)\1", r"a?b", r".", r"(?s).", r"\\(.)", r"[a-c]", r"\A\d+\Z", r"a(?=b)", r"a(?!b)", r"(?<=a)b", r"\|", r"(?:ab)+", r"x|", r"[\"']"):
        q = repr(p)
        for m in ("match", "search", "fullmatch"):
            add(f"(lambda m: m and (m.group(), m.span(), m.groups()))(re.{m}({q}, a))", a="r3")
        add(f"re.sub({q}, '<\\\\g<0>>', a)", a="r3")
        add(f"re.findall({q}, a)", a="r3")
        add(f"re.split({q}, a)", a="r2")
        add(f"[m.start() for m in re.finditer({q}, a)]", a="r2")
        add(f"re.compile({q}).sub(lambda m: m.group(0) + '.', a, 1)", a="r3")
        add(f"re.match({q}, a) is None", a=U1)
    # codecs
    for e in ("codecs.decode(a, 'unicode_escape')", "codecs.decode(a.encode('latin-1', 'backslashreplace'), 'unicode_escape')", "a.encode('utf-8').decode('unicode_escape')", "a.encode('ascii', 'backslashreplace').decode('unicode_escape')",
              "codecs.decode(a.encode('utf-8'), 'unicode_escape').encode('latin-1').decode('utf-8')"):
        add(e, a="e4")
        add(e, a=U1)
    # containers, identity, flow
    for e in ("[a, b]", "(a, b) == (b, a)", "{a: b}", "[x + 1 for x in (a, b)]", "{x for x in (a, b)}", "{x: x for x in (a, b)}", "dict(zip((1, 2), (a, b)))", "max(a, b)", "sorted((a, b), reverse=True)", "sorted([a, b], key=lambda x: -x)", "sum((a, b))", "a < b < 3", "a == b or a > 0", "a if a > b else b", "[a, b].index(b)", "{a: 1, b: 2}", "len({a, b})", "{1: 'x', 2: 'y'}.get(a, b)", "{-1: None, 0: 4}.get(a, a)", "a in {1, 2, 3}", "a in {0: 1, True: 5, 'x': 2}", "{1: 2, 0: 3}.pop(a, 9)", "{1: 5, None: 7, 2.0: 3}[a]", "a in set()", "{}.get(b, a)", "{1, 2}.discard(a)", "frozenset((1, 2)).__contains__(b)", "{True: 1}.get(a > b, 0)", "{True: 'x', False: 'y'}[a > b]", "collections.Counter((1, 1, 2))[a]", "{1: {2: 3}}.get(a, {}).get(b)", "dict.get({1: 2}, a)",
              "{a: 1}.get(b, 0)", "a in [b]", "any(x == a for x in (1, b))", "list(filter(None, [a, b]))", "list(map(lambda x, y: x - y, [a], [b]))", "functools.reduce(lambda x, y: x * 10 + y, [a, b])", "list(itertools.chain([a], [b]))", "list(itertools.takewhile(lambda x: x < 2, [a, b]))", "list(itertools.accumulate([a, b]))", "collections.OrderedDict([(a, 1), (b, 2)])", "min([a, b], key=abs)", "{**{a: 1}, **{b: 2}}", "[[a], [b]] == [[b], [a]]", "operator.sub(a, b)", "divmod(a, 3)[0] + b", "[a, 1, b].count(1)", "(lambda x, y=b: x - y)(a)"):
        add(e, a=I5, b=I5)
        if "divmod" not in e:
            add(e, a=B, b=I5)
    # statements
    for body in (
        "d = {a: 1}\nd[b] = 2\nreturn d",
        "d = {'a': 1, 'b': 2}\ndel d[a]\nreturn list(d)",
        "d = {a: 1}\nd.setdefault(b, []) if b != a else None\nreturn d",
        "d = {a: 1}\nx = d.setdefault(b, 5)\nreturn x, d",
        "d = {a: 1}\nd.update({b: 2, 'a': 3})\nreturn d",
        "d = {'a': 1}\nd.update(zip((a, b), (5, 6)))\nreturn list(d.items())",
        "d = {a: 1, 'a': 2}\nreturn d.pop(b, 7), len(d), b in d, d",
        "d = collections.defaultdict(list)\nfor x in (a, b, 'a'):\n    d[x].append(1)\nreturn dict(d)",
        "d = collections.OrderedDict()\nd[a] = 1\nd[b] = 2\nd.move_to_end(a)\nreturn list(d)",
        "s = set()\ns.add(a)\ns.add(b)\ns.discard('a')\nreturn s",
        "s = {a, 'b'}\ns.remove(b)\nreturn s",
        "s = {a}\ns |= {b}\nt = frozenset(s)\nreturn t, 'a' in t, t.issuperset({a}), t.isdisjoint({b})",
        "s = {a, b}\ns -= {'a'}\nreturn len(s), sorted(s)",
        "l = [a, b]\nl.remove('a')\nreturn l",
        "l = ['x', 'a', b]\nl.insert(l.index(a), 'i')\nreturn l",
        "l = [b, a, 'a']\nl.sort()\nreturn l",
        "l = [b, a, 'a']\nl.sort(key=lambda x: (len(x), x), reverse=True)\nreturn l",
        "l = [b]\nl += [a]\nl.extend(a)\nreturn l[::-1]",
        "l = [a, b]\nl[0:1] = [b, 'x']\ndel l[-1]\nreturn l",
        "x = 0\nfor c in a:\n    if c == b:\n        continue\n    x += 1\nelse:\n    x += 10\nreturn x",
        "i = 0\nwhile i < len(a) and a[i] != 'b':\n    i += 1\nreturn i",
        "match a:\n    case 'a' | 'b':\n        return 1\n    case 'ab':\n        return 2\n    case str() as x if x == b:\n        return x\n    case _:\n        return 3",
        "match (a, b):\n    case ('a', x):\n        return x\n    case (x, 'a'):\n        return [x]\n    case [x, y] if x == y:\n        return 'same'\nreturn None",
        "match {'k': a}:\n    case {'k': 'a'}:\n        return 1\n    case {'k': v, **rest}:\n        return v, rest",
        "try:\n    return ['p', 'q'].index(a)\nexcept ValueError as e:\n    return 'no'\nfinally:\n    b = 'x'",
        "try:\n    raise KeyError(a)\nexcept (KeyError, ValueError) as e:\n    return e.args[0]",
        "if (n := len(a)) > 1 and (c := a[0]) == b:\n    return n, c\nreturn n",
        "def g(*args, **kw):\n    return args, kw\nreturn g(*a, x=b)",
        "def g():\n    yield from a\n    yield b\nreturn list(g())",
        "x, *y = a + 'z' + b\nreturn x, y",
        "class C:\n    def __eq__(self, o):\n        return a == o\n    def __hash__(self):\n        return hash(a)\n    def __len__(self):\n        return len(a)\n    def __contains__(self, x):\n        return x in a\nc = C()\nreturn c == b, b == c, bool(c), b in c, len(c)",
        "class C:\n    def __init__(self, x):\n        self.x = x\n    def __lt__(self, o):\n        return self.x < o.x\nreturn [c.x for c in sorted([C(b), C(a), C('a')])]",
        "import dataclasses\n@dataclasses.dataclass(frozen=True)\nclass P:\n    x: str\n    y: int = 0\nreturn P(a) == P(b), {P(a): 1}.get(P(b)), P(a) in [P(b, 1)]",
        "import enum\nclass E(enum.Enum):\n    A = 'a'\n    B = 'b'\nreturn [e.name for e in E if e.value == a]",
        "from collections import namedtuple\nN = namedtuple('N', 'x y')\nn = N(a, b)\nreturn n.x, n == (b, a), n._replace(x='q').x",
        "n = 0\ndef g():\n    nonlocal n\n    n += len(a)\n    return n\ng()\nreturn g()",
        "return {k: len(list(v)) for k, v in itertools.groupby(a + b)}",
        "return list(itertools.product(a, b)), list(itertools.zip_longest(a, b))",
        "assert a != b, 'same'\nreturn a",
        "return next((c for c in a if c == b), None)",
        "it = iter(a)\nreturn next(it, None), list(it)",
        "return a.lower() == b.lower() or a[:1] not in ('', b)",
        "return f'{a!s}:{b:s}'",
        "return '{:s}-{}'.format(a, b), '%s' % (b,)",
        "return a > b, not (a <= b), a == a + '', (a, b) < (b, a)",
    ):
        add(":" + body, a="t2", b="t1")
        if "[0]" not in body:
            add(":" + body, a="t1", b="t2")
    for body in (
        "x = a\nx += b\nx -= 1\nx *= 2\nreturn x",
        "match a:\n    case 1:\n        return 'one'\n    case 0 | -1:\n        return 'few'\n    case int() if a > b:\n        return a\n    case _:\n        return b",
        "i, out = a, []\nwhile i < b:\n    out.append(i)\n    i += 2\nreturn out",
        "return [i for i in range(a, b) if i % 2]",
        "l = list(range(5))\nreturn l[a:b], l[::b] if b else None",
        "l = list(range(5))\ndel l[a]\nl[b] = 9\nreturn l",
        "l = [1, 2]\nl.insert(a, 0)\nreturn l, l.pop(b)",
        "l = [3, 1, 2]\nreturn max(l[a:] or [b]), sum(l[:b])",
        "d = {a: 1, b: 2}\nd[a] += 1\nreturn d, list(d)",
        "import bisect\nreturn bisect.bisect_left([1, 2, 3], a)",
        "return divmod(a, 3), -a // 2, a % -3, (a > 0) + (b > 0)",
        "return a and b, a or b, not a, a if b else -a",
        "return bool(a) ^ bool(b), bool(a) & bool(b), (a > 0) | (b > 0)",
        "return int(a > b) - int(a < b)",
        "return sorted([(a, 'x'), (b, 'y')])[0][1]",
        "return min((abs(x), x) for x in (a, b))",
        "return '%d' % 5 if a > b else 'n', str(a), str(a) + str(b)",
    ):
        add(":" + body, a=I5, b=I5)
    return out


def spec(S, name, t):
    if t == "i":
        return S.int(name)
    if t == "z":
        return S.int64(name)
    if t == "i5":
        return S.int(name, -5, 5)
    if t == "n3":
        return S.int(name, 0, 3)
    if t == "b":
        return S.bool(name)
    if t == "f":
        return S.float(name)
    if t == "f3":
        return S.choice(name, [0.5, -2.0, 3.7, 0.0, 2.5, -0.1, 1e300])
    chars = {"w": " \ta\nB", "t": "abA", "d": "0179-+_. aFe", "r": "abA1 \\|\"\n", "e": "\\nx4u0'1é"}
    if t[0] in chars:
        return S.str(name, int(t[1]), chars=chars[t[0]])
    return S.str(name, int(t[1]), "uni" if t[0] == "u" else "ascii")


class Skip(Exception):
    pass


def value(x, m):
    """of a symbolic result in a model"""
    if isinstance(x, OpaqueStr):
        raise Skip
    t = type(x)
    if t is SymBool:
        return z3.is_true(m.eval(x.t, model_completion=True))
    if t is SymInt:
        return m.eval(x.t, model_completion=True).as_long()
    if t is SymFloat:
        return fp_to_py(m.eval(x.t, model_completion=True))
    if t is SymStr:
        return "".join(c if isinstance(c, str) else chr(c) if isinstance(c, int) else chr(m.eval(c, model_completion=True).as_long()) for c in x.c)
    if t is models.SymBytes:
        return bytes(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long() for c in x.b)
    if isinstance(x, SymBase):
        raise Skip
    if t in (list, tuple, set, frozenset):
        return t([value(y, m) for y in x])
    if t in (dict, collections.OrderedDict):
        return t((value(k, m), value(v, m)) for k, v in x.items())
    return x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return same(list(a.items()), list(b.items()))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or math.isnan(a) and math.isnan(b)
    if isinstance(a, (set, frozenset)):
        return a == b and len(a) == len(b)
    return a == b


POOL = {
    "i": [0, 1, -1, 2, -3, 7, 255, 2**31, 2**53 + 1, -(2**63), 2**70],
    "z": [0, 1, -1, 2, -3, 2**53 + 1, 2**62 - 1],
    "i5": [0, 1, -1, 2, -3, 5],
    "f": [0.0, 0.5, -1.0, 1.5, 2.0, 1e16, -3.7, 5e-324, 1e308],
}


def pins(rng, raw, vs):
    """constraints that move a model around"""
    out = []
    for n, t in vs.items():
        x = raw[n]
        if type(x) is SymInt:
            out.append(x.t == rng.choice(POOL.get(t, [0, 1, 2, 3])))
        elif type(x) is SymFloat:
            out.append(x.t == z3.FPVal(rng.choice(POOL["f"]), x.t.sort()))
        elif type(x) is SymBool:
            out.append(x.t == rng.choice([True, False]))
        elif type(x) is SymStr:
            for c in x.c:
                if z3.is_expr(c):
                    lo, hi = rng.choice(DOMAINS["uni"])
                    out.append(c == rng.choice([rng.randint(lo, hi), rng.randint(32, 126), ord(rng.choice("aAbB1 "))]))
    return [p for p in out if rng.random() < 0.8]


def one(i):
    expr, vs = CASES[i]
    if expr.startswith(":"):
        src = f"def case({', '.join(vs)}):\n" + "".join("    " + line + "\n" for line in expr[1:].split("\n"))
    else:
        src = f"def case({', '.join(vs)}):\n    return {expr}\n"
    g1, g2 = dict(NS), dict(NS)
    g1["__sv__"] = rt
    exec(instrument.rewrite(src, "<case>", "case"), g1)
    exec(compile(src, "<case>", "exec"), g2)
    e = en.Engine(query_timeout_ms=20000, deadline=time.monotonic() + LIMIT)
    s = Symbolic(e)
    rng = random.Random(f"{SEED} {expr} {vs}")
    stats = {"paths": 0, "models": 0, "skipped": 0}
    bad = []

    def path():
        s.begin()
        if stats["paths"] >= PATHS:
            raise KeyboardInterrupt
        raw = {n: spec(s, n, t) for n, t in vs.items()}
        exc = res = None
        try:
            res = g1["case"](**raw)
        except Exception as x:
            exc = x
        stats["paths"] += 1
        for k in range(4):
            e.solver.push()
            try:
                if k:
                    e.solver.add(*pins(rng, raw, vs))
                try:
                    m = e.refined_model()
                except en.Inconclusive:
                    m = None
                if m is None:
                    if not k:
                        raise en.PathAbort
                    continue
                given = {n: value(x, m) for n, x in raw.items()}
                want = wexc = None
                try:
                    want = g2["case"](**given)
                except Exception as x:
                    wexc = x
                stats["models"] += 1
                if wexc is not None or exc is not None:
                    if type(wexc) is not type(exc):
                        bad.append(f"{expr} {given}: {wexc!r} {want!r}, encoded: {exc!r} {'' if exc else value(res, m)!r}")
                    continue
                try:
                    got = value(res, m)
                except Skip:
                    stats["skipped"] += 1
                    continue
                if not same(got, want):
                    bad.append(f"{expr} {given}: {want!r}, encoded: {got!r}")
            finally:
                e.solver.pop()
            if bad:
                raise KeyboardInterrupt

    status = "ok"
    try:
        e.explore(path)
    except KeyboardInterrupt:
        pass
    except en.Inconclusive as x:
        status = "slow" if stats["paths"] else f"inconclusive: {x}"
    except en.Unsupported as x:
        status = f"unsupported: {x}"
    except BaseException as x:
        status = f"error: {x!r}"
    return expr, vs, status, stats, bad


CASES: list = []
LIMIT, PATHS = 6.0, 120
# the values do not depend on the other cases; SYMWIZ_SELFSEED tries others
SEED = os.environ.get("SYMWIZ_SELFSEED", "0")


def main(argv) -> int:
    global CASES
    CASES = [c for c in cases() if len(argv) < 2 or argv[1] in c[0]]
    sys.setrecursionlimit(3000)
    t0 = time.monotonic()
    with mp.get_context("fork").Pool(8) as pool:
        rs = pool.map(one, range(len(CASES)), chunksize=4)
    wrong = [b for r in rs for b in r[4]]
    failed = [r for r in rs if r[2].startswith(("error", "inconclusive"))]
    uns = [r for r in rs if r[2].startswith("unsupported")]
    print(
        f"selftest: {len(rs)} cases, {sum(r[3]['paths'] for r in rs)} paths, {sum(r[3]['models'] for r in rs)} models compared with Python, "
        f"{sum(r[3]['skipped'] for r in rs)} opaque, {len(uns)} unsupported (reported as such by the checks), {time.monotonic() - t0:.0f} s"
    )
    if len(argv) > 1 or os.environ.get("SYMWIZ_VERBOSE"):
        for r in uns:
            print("   ", r[0], r[1], r[2])
    for r in failed:
        print("PROBLEM", r[0], r[1], r[2])
    for b in wrong:
        print("WRONG", b)
    return 1 if wrong or any(r[2].startswith("error") for r in failed) else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
