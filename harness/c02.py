"""C02 comparisons."""

from harness.common import (
    BASIC,
    NUMERIC,
    Pkg,
    SubPackages,
    Value,
    Void,
    WizardTypeError,
    evaluate,
    sym_value,
)

BOUNDS = {
    "quick": "every pair of operand kinds, void included; ints unbounded among themselves, of 64 bits against doubles; all finite "
    "doubles; strings of 0..2 characters over ASCII plus a case-sensitive Unicode sample; package names of 1..2 characters",
    "thorough": "as quick with strings of 0..3 characters",
}
ASSUMPTIONS = ["NaN operands are outside the claim", "case mapping tables are taken from the running Python"]
COVERS = {"all": ["eq", "order", "ci", "type-error", "package", "large", "void", "true", "false"]}

ORDER = ["<", "<=", ">", ">="]


def order(op, a, b):
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def two(S, ka, kb, maxlen, domain):
    bound = 2**53 if "float" in (ka, kb) else None
    a = sym_value(S, "a", ka, maxlen=maxlen, domain=domain, bound=bound)
    b = sym_value(S, "b", kb, maxlen=maxlen, domain=domain, bound=bound)
    return a, b


def large(S, op, flip, near=False):
    """integers of 64 bits and doubles compare by their exact values"""
    i, f = S.int64("i"), S.float("f")
    if near:
        # around the first integers that no double has: an easy question for the solver
        S.assume(i >= 2**53 - 4)
        S.assume(i < 2**53 + 8)
        S.assume(f >= float(2**53 - 4))
        S.assume(f < float(2**53 + 16))
    S.cover("large")
    a, b = (f, i) if flip else (i, f)
    v, err = evaluate(S, f"a {op} b", {"a": a, "b": b})
    S.check(err is None, "int and float must be comparable")
    want = a == b if op == "==" else S.no(a == b) if op == "!=" else order(op, a, b)
    S.check(S.iff(is_bool(S, v), want), f"a large integer and a double: {op} is wrong")


def is_bool(S, v):
    S.check(isinstance(v.value, bool), "a comparison must give a bool")
    return v.value


def equality(S, ka, kb, maxlen, domain):
    a, b = two(S, ka, kb, maxlen, domain)
    comparable = (ka in NUMERIC) == (kb in NUMERIC)
    S.cover("eq")
    eq, e1 = evaluate(S, "a == b", {"a": a, "b": b})
    ne, e2 = evaluate(S, "a != b", {"a": a, "b": b})
    S.check(e1 is None and e2 is None, "== and != are defined on all basic values")
    want = a == b if comparable else False
    S.check(S.iff(is_bool(S, eq), want), f"{ka} == {kb} is wrong")
    S.check(S.iff(is_bool(S, ne), S.no(want)), f"{ka} != {kb} is not the negation of ==")
    if want:
        S.cover("true")
    else:
        S.cover("false")


def ordering(S, ka, kb, op, maxlen, domain):
    a, b = two(S, ka, kb, maxlen, domain)
    v, err = evaluate(S, f"a {op} b", {"a": a, "b": b})
    if (ka in NUMERIC and kb in NUMERIC) or (ka == "str" and kb == "str"):
        S.cover("order")
        S.check(err is None, f"{ka} {op} {kb} must be defined")
        S.check(S.iff(is_bool(S, v), order(op, a, b)), f"{ka} {op} {kb} is wrong")
    else:
        S.cover("type-error")
        S.check(isinstance(err, WizardTypeError), f"{ka} {op} {kb} must be a type error")


def insensitive(S, ka, kb, op, maxlen, domain):
    a, b = two(S, ka, kb, maxlen, domain)
    v, err = evaluate(S, f"a {op}: b", {"a": a, "b": b})
    if ka == "str" and kb == "str":
        S.cover("ci")
        S.check(err is None, f"string {op}: string must be defined")
        la, lb = a.lower(), b.lower()
        if op == "==":
            want = la == lb
        elif op == "!=":
            want = S.no(la == lb)
        else:
            want = order(op, la, lb)
        S.check(S.iff(is_bool(S, v), want), f"string {op}: string is wrong")
    else:
        S.cover("type-error")
        S.check(isinstance(err, WizardTypeError), f"{ka} {op}: {kb} must be a type error")


def nothing(S, other, op, flip):
    """what has no value has no order and no case, and equals no value"""
    b = Void() if other == "void" else sym_value(S, "b", other)
    ab = f"b {op} a" if flip else f"a {op} b"
    v, err = evaluate(S, ab, {"a": Void(), "b": b})
    S.cover("void")
    if op in ("==", "!="):
        S.check(err is None, f"{op} of void must be defined")
        if other != "void":
            S.check(S.iff(is_bool(S, v), op == "!="), f"void {op} {other} is wrong")
        else:
            w, _ = evaluate(S, "a != b" if op == "==" else "a == b", {"a": Void(), "b": b})
            S.check(S.iff(is_bool(S, v), S.no(is_bool(S, w))), "void == void is not the negation of !=")
        return
    S.check(isinstance(err, WizardTypeError), f"void {op} {other} must be a type error")


def package(S, other, maxlen):
    """sub-packages compare by name, without regard to case, for equality only"""
    n = S.str("n", maxlen, "uni", minlen=1)
    p = Pkg(n, ["a.esp"])
    if other == "str":
        m = S.str("m", maxlen, "uni", minlen=1)
        o = m
    elif other == "subpackage":
        m = S.str("m", maxlen, "uni", minlen=1)
        o = Pkg(m, [])
    else:
        o = sym_value(S, "b", other)
        m = None
    flip = S.choice("flip", [False, True])
    ab = "b {} a" if flip else "a {} b"
    v = {"a": p, "b": o}
    for op in ORDER:
        _, err = evaluate(S, ab.format(op), v)
        S.check(isinstance(err, WizardTypeError), "ordering a sub-package must be a type error")
    S.cover("type-error")
    if m is None:
        for op in ("==", "!="):
            _, err = evaluate(S, ab.format(op), v)
            S.check(isinstance(err, WizardTypeError), f"sub-package {op} {other} must be a type error")
        return
    S.cover("package")
    eq, e1 = evaluate(S, ab.format("=="), v)
    ne, e2 = evaluate(S, ab.format("!="), v)
    S.check(e1 is None and e2 is None, "sub-package equality must be defined")
    want = n.casefold() == m.casefold()
    S.check(S.iff(is_bool(S, eq), want), "sub-package == is wrong")
    S.check(S.iff(is_bool(S, ne), S.no(want)), "sub-package != is wrong")


def jobs(tier):
    ml = 2 if tier == "quick" else 3
    for ka in BASIC:
        for kb in BASIC:
            p = {"ka": ka, "kb": kb, "maxlen": ml, "domain": "uni" if ka == kb == "str" else "ascii"}
            yield f"{ka} ==/!= {kb}", "equality", p
            for op in ORDER:
                yield f"{ka} {op} {kb}", "ordering", {**p, "op": op}
            for op in ["==", "!="] + ORDER:
                yield f"{ka} {op}: {kb}", "insensitive", {**p, "op": op}
    for op in ["==", "!="] + ORDER:
        for flip in (False, True):
            yield f"large {op} {flip}", "large", {"op": op, "flip": flip}
            yield f"near {op} {flip}", "large", {"op": op, "flip": flip, "near": True}
    for o in BASIC + ("void",):
        for op in ["==", "!="] + ORDER:
            for flip in (False, True) if o != "void" else (False,):
                yield f"void {op} {o} {flip}", "nothing", {"other": o, "op": op, "flip": flip}
                yield f"void {op}: {o} {flip}", "nothing", {"other": o, "op": op + ":", "flip": flip}
    for o in ("str", "subpackage", "bool", "int", "float"):
        yield f"package/{o}", "package", {"other": o, "maxlen": 2 if tier == "quick" else 3}
