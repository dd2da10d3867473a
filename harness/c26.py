"""C26 the values handed to an application: type tags, Python equality, and the operators of scripts."""

from harness.common import (
    ALL_KINDS,
    BASIC,
    Pkg,
    SubPackages,
    Value,
    Void,
    WizardError,
    WizardIndexError,
    WizardTypeError,
    evaluate,
    kind_of,
    sym_value,
)
from wizard.value import VariableType

BOUNDS = {
    "quick": "every pair of the 7 kinds of values: integers of any size, all finite doubles, strings of up to 2 printable ASCII characters, fixed sub-packages and lists of up to two in both orders",
    "thorough": "as quick with strings of up to 4 characters, mixed alphabet",
}
ASSUMPTIONS = [
    "divisors are not zero and exponents are small (0 to 3, no floats)",
    "a slice has steps other than 0; bounds are -3 to 3",
]
COVERS = {"all": ["equal", "different", "void", "defined", "type-error", "index-error", "untyped"]}

TAGS = {
    "bool": ("bool", VariableType.BOOL),
    "int": ("integer", VariableType.INTEGER),
    "float": ("float", VariableType.FLOAT),
    "str": ("string", VariableType.STRING),
    "void": ("void", VariableType.VOID),
    "subpackages": ("SubPackage[]", VariableType.LIST_SUBPACKAGES),
    "subpackage": ("SubPackage", VariableType.SUBPACKAGE),
}


class Special(SubPackages):
    pass


class Other(Pkg):
    """sub-packages of an application may have classes of their own"""


def content(S, name, kind, maxlen, domain):
    if kind == "subpackage":
        return S.choice(name + ".name", PKGS)
    if kind == "subpackages":
        return S.choice(name + ".list", [SubPackages(PKGS[:2]), SubPackages([]), Special(PKGS[1:2]), SubPackages(PKGS[1::-1])])
    return sym_value(S, name, kind, maxlen, domain)


PKGS = [Pkg("P", ["b", "a.esp"]), Pkg("q", []), Other("p", ["b", "a.esp"])]


def unchanged(S, v, x, k):
    S.check(v.value is x if k not in BASIC else S.same(v.value, x), "the content of a value changed")
    S.check(v.type is TAGS[k][1], "the type of a value changed")


def tag(S, kind, maxlen, domain):
    x = content(S, "a", kind, maxlen, domain)
    v = Value(x)
    text, t = TAGS[kind]
    S.check(v.type is t, f"{kind} has another type tag")
    S.check(str(v.type) == text, f"the type of {kind} has another name")
    S.check(VariableType.from_pytype(type(x)) is t, f"from_pytype of {kind}")
    S.check(v.is_void() == (kind == "void"), f"is_void of {kind}")
    S.check(S.iff(True if v else False, truth(kind, x)), f"truth of {kind}")
    n = v.logical_not()
    S.check(S.same(n.value, S.no(truth(kind, x))), f"logical_not of {kind}")
    if kind in ("subpackage", "subpackages"):
        names = [i.value for i in v]
        want = x.files if kind == "subpackage" else [p.name for p in x]
        S.check(list(names) == list(want), f"iteration of {kind}")
    else:
        try:
            iter(v)
            S.fail(f"iteration of {kind} must be a type error")
        except TypeError:
            pass
    unchanged(S, v, x, kind)


def truth(kind, x):
    if kind == "bool":
        return x
    if kind in ("int", "float"):
        return x != 0
    if kind in ("str", "subpackages"):
        return len(x) > 0
    return True


def nothing(S):
    v = Value(None)
    S.cover("void")
    S.check(v.is_void() and v.type is VariableType.VOID and str(v.type) == "void", "Value(None) is void")
    S.check(v == Value(None) and v == Value(Void()) and not (v != Value(Void())), "void equals void")
    S.check(v != Value(0) and v != Value("") and v != Value(False), "void equals nothing else")
    for bad in ([1], {}, b"a", (1,), 1j, object()):
        try:
            Value(bad)
            S.fail(f"{type(bad).__name__} cannot be a value")
        except ValueError:
            S.cover("untyped")


def equal(S, ka, kb, maxlen, domain):
    """Python equality of values: same type and same content"""
    a, b = content(S, "a", ka, maxlen, domain), content(S, "b", kb, maxlen, domain)
    va, vb = Value(a), Value(b)
    eq, ne = va == vb, va != vb
    S.check(S.iff(eq, S.no(ne)), f"{ka} and {kb} are both equal and different, or neither")
    if ka != kb:
        S.cover("different")
        S.check(S.no(eq), f"{ka} equals {kb}")
    elif ka == "void":
        S.cover("void")
        S.check(eq, "void equals void")
    else:
        S.cover("equal")
        if ka == "subpackage":
            want = a.name.casefold() == b.name.casefold()
        elif ka == "subpackages":
            want = [p.name for p in a] == [p.name for p in b]
        else:
            want = a == b
        S.check(S.iff(eq, want), f"two values of type {ka} are equal without equal contents, or the reverse")
    # values against their content
    S.check(S.iff(va == b, eq), f"{ka} against plain {kb}")
    S.check(S.iff(vb == va, eq), f"{kb} against {ka}: not symmetric")
    unchanged(S, va, a, ka)
    unchanged(S, vb, b, kb)


OPS = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "^": lambda a, b: a**b,
    "%": lambda a, b: a % b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
    "==": lambda a, b: a.equals(b),
    "!=": lambda a, b: a.not_equals(b),
    "or": lambda a, b: a | b,
    "and": lambda a, b: a & b,
    "in": lambda a, b: b.contains(a),
    "in:": lambda a, b: b.contains(a, True),
    "[]": lambda a, b: a[b],
}


def operator(S, op, ka, kb, maxlen, domain):
    """the operators of values are those of scripts"""
    def one(name, k):
        if op == "^":
            if k == "int":
                return S.int(name, -4, 4) if name == "a" else S.int(name, 0, 3)
            if k == "float":
                return 2.5
        if op == "[]" and name == "b" and k == "int":
            return S.int(name, -4, 4)
        return content(S, name, k, maxlen, domain)

    a, b = one("a", ka), one("b", kb)
    if op in ("%", "^") and kb in ("bool", "int", "float"):
        if op == "%":
            S.assume(b != 0)
        elif ka == "float" or kb == "float":
            return
    va, vb = Value(a), Value(b)
    text = "a[b]" if op == "[]" else f"a {op} b"
    want, err = evaluate(S, text, {"a": Value(a), "b": Value(b)}, catch=(WizardError,))
    try:
        got = OPS[op](va, vb)
    except TypeError:
        S.cover("type-error")
        S.check(isinstance(err, WizardTypeError), f"{ka} {op} {kb}: a type error only as a value")
        got = None
    except IndexError:
        S.cover("index-error")
        S.check(isinstance(err, WizardIndexError), f"{ka} {op} {kb}: an index error only as a value")
        got = None
    if got is not None:
        S.check(err is None, f"{ka} {op} {kb}: an error only in a script")
        S.cover("defined")
        k = kind_of(want.value)
        S.check(kind_of(got.value) == k, f"{ka} {op} {kb}: another kind of result")
        S.check(S.same(got.value, want.value) if k in BASIC else got.value is want.value, f"{ka} {op} {kb}: another result")
        S.check(got.type is TAGS[k][1] and want.type is TAGS[k][1], f"{ka} {op} {kb}: another type tag")
    unchanged(S, va, a, ka)
    unchanged(S, vb, b, kb)


def unary(S, kind, maxlen, domain):
    a = content(S, "a", kind, maxlen, domain)
    v = Value(a)
    want, err = evaluate(S, "-a", {"a": Value(a)})
    try:
        got = -v
        S.check(err is None and S.same(got.value, want.value), f"-{kind}")
    except TypeError:
        S.check(isinstance(err, WizardTypeError), f"-{kind}: a type error only as a value")
    try:
        got = +v
        S.check(kind in ("bool", "int", "float") and S.same(got.value, a), f"+{kind}")
    except TypeError:
        S.check(kind not in ("bool", "int", "float"), f"+{kind} must be defined")
    unchanged(S, v, a, kind)


def slices(S, maxlen, domain, kinds):
    """slice(start, end, step) is the slice of scripts, missing parts included"""
    s = S.str("s", maxlen, domain)
    parts = []
    for n, k in zip(("i", "j", "k"), kinds):
        if k == "none":
            parts.append(None)
        elif k == "int":
            parts.append(S.choice(n, [-2, -1, 1, 2]) if n == "k" else S.choice(n, [-3, -1, 0, 1, 3]))
        elif k == "bool":
            parts.append(True)
        else:
            parts.append(S.choice(n, [1.5, "x"]))
    names = ["" if p is None else n for n, p in zip(("i", "j", "k"), parts)]
    text = "s[" + ":".join(names[:2] if parts[2] is None else names) + "]"
    want, err = evaluate(S, text, {"s": s, **{n: p for n, p in zip("ijk", parts) if p is not None}})
    v = Value(s)
    try:
        got = v.slice(*[None if p is None else Value(p) for p in parts])
        S.check(err is None and S.same(got.value, want.value), f"{text}: another slice")
    except TypeError:
        S.check(isinstance(err, WizardTypeError) and "bad" in kinds, f"{text}: a type error only as a value")
    unchanged(S, v, s, "str")


def jobs(tier):
    q = tier == "quick"
    d = {"maxlen": 2 if q else 4, "domain": "ascii" if q else "uni"}
    yield "nothing", "nothing", {}
    for a in ALL_KINDS:
        yield f"tag {a}", "tag", {"kind": a, **d}
        yield f"unary {a}", "unary", {"kind": a, **d}
        for b in ALL_KINDS:
            yield f"equal {a} {b}", "equal", {"ka": a, "kb": b, **d}
            for op in OPS:
                yield f"{a} {op} {b}", "operator", {"op": op, "ka": a, "kb": b, **d}
    for i in ("none", "int", "bool", "bad"):
        for j in ("none", "int", "bad"):
            for k in ("none", "int", "bad"):
                if k == "none" and i == "none" and j == "none":
                    continue
                yield f"slice {i} {j} {k}", "slices", {"kinds": [i, j, k], "maxlen": d["maxlen"], "domain": d["domain"]}
