"""C01 typed arithmetic."""

from harness.common import (
    ALL_KINDS,
    BASIC,
    NUMERIC,
    Value,
    WizardTypeError,
    evaluate,
    kind_of,
    sym_value,
)

BOUNDS = {
    "all": "operators + - * / % ^ and unary -; every pair of operand kinds (bool, int, float, str, SubPackage, "
    "SubPackages, Void); ints unbounded for + - * / %, |base| <= 6 and -3 <= exponent <= 4 for ^; all finite doubles for "
    "+ - * and /; strings up to 2 printable ASCII characters (quick) / 3 (thorough); every operator on every pair of 10 fixed numbers (integers beyond 2**64, decimals)"
}
ASSUMPTIONS = [
    "int/int true division, int-to-float conversion, float % and ** are uninterpreted functions with concrete axioms "
    "added on demand: results are compared with the same operation, so a different operation or operand order is "
    "detected, the C arithmetic itself is trusted",
    "division by zero is outside the property (the language text does not define it)",
]
COVERS = {"all": ["numeric", "concat", "type-error", "neg", "fixed"]}

OPS = ["+", "-", "*", "/", "%", "^"]


def py(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "%":
        return a % b
    return a**b


def operand(S, name, kind, op, maxlen):
    if op == "^" and kind == "int":
        if name == "a":
            return S.int(name, -6, 6)
        return S.int(name, -3, 4)
    return sym_value(S, name, kind, maxlen=maxlen)


def binary(S, op, ka, kb, maxlen):
    a = operand(S, "a", ka, op, maxlen)
    b = operand(S, "b", kb, op, maxlen)
    numeric = ka in NUMERIC and kb in NUMERIC
    if op in "/%" and numeric:
        S.assume(b != 0)
    if op == "^" and numeric and "float" not in (ka, kb):
        S.assume(S.any(a != 0, b >= 0))
    if op == "^" and numeric and "float" in (ka, kb):
        S.assume(a > 0)
        S.assume(a < 100)
        S.assume(b < 50)
        S.assume(b > -50)
    val, err = evaluate(S, "a " + op + " b", {"a": a, "b": b})
    text = ka == "str" and kb == "str"
    if numeric or (op == "+" and text):
        S.cover("numeric" if numeric else "concat")
        S.check(err is None, f"{ka} {op} {kb} must be defined")
        want = py(op, a, b)
        S.check(S.same(val.value, want), f"{ka} {op} {kb} has the wrong value or type")
        S.check(str(val.type) == TYPES[kind_of(want)], f"{ka} {op} {kb} has the wrong type tag")
    else:
        S.cover("type-error")
        S.check(isinstance(err, WizardTypeError), f"{ka} {op} {kb} must be a type error")


TYPES = {"bool": "bool", "int": "integer", "float": "float", "str": "string"}


def negate(S, k):
    a = sym_value(S, "a", k, maxlen=2)
    val, err = evaluate(S, "-a", {"a": a})
    if k in ("int", "float"):
        S.cover("neg")
        S.check(err is None, "unary minus must be defined on numbers")
        S.check(S.same(val.value, 0 - a if k == "int" else -a), "-a is not the negation of a")
        S.check(S.same((-Value(a)).value, val.value), "Value negation differs")
    else:
        S.cover("type-error")
        S.check(isinstance(err, WizardTypeError), f"-{k} must be a type error")


BIG = [2**53 + 1, -(2**64) - 3, 10**30 + 7, 3, -7, 2.5, -0.1, 1e300, 0.0, True]


def fixed(S, op):
    """large and odd numbers, and what is not interpreted above, against Python's operation"""
    a, b = S.choice("a", BIG), S.choice("b", BIG if op != "^" else [0, 1, 5, -3, 0.5, 2.0, 31, True])
    try:
        want = py(op, a, b)
    except ArithmeticError:
        return
    if isinstance(want, complex):
        return
    S.cover("fixed")
    val, err = evaluate(S, f"a {op} b", {"a": a, "b": b})
    S.check(err is None, "arithmetic on numbers is defined")
    S.check(type(val.value) is (int if type(want) is bool else type(want)) and S.same(val.value, want), f"{op} has the wrong value or type")


def jobs(tier):
    maxlen = 2 if tier == "quick" else 3
    for op in OPS:
        for ka in ALL_KINDS:
            for kb in ALL_KINDS:
                if ka not in BASIC and kb not in BASIC and ka != kb:
                    continue
                yield f"{ka} {op} {kb}", "binary", {"op": op, "ka": ka, "kb": kb, "maxlen": maxlen}
    for op in OPS:
        yield f"fixed {op}", "fixed", {"op": op}
    for k in ALL_KINDS:
        yield f"-{k}", "negate", {"k": k}
