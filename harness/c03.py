"""C03 logical operators and truthiness."""

from harness.common import Pkg, SubPackages, Value, Void, evaluate, run_script, sym_value

BOUNDS = {
    "all": "every pair of operand kinds (bool, int, float, string, sub-package, list of 0..2 sub-packages, void); ints unbounded, "
    "all finite doubles, strings of 0..2 characters; both spellings of each operator; conditions of If, Elif and While"
}
ASSUMPTIONS = ["what has no value (void) is true, as every value that is not zero or empty"]
COVERS = {"all": ["and", "or", "not", "condition", "side-effects"]}

KINDS = ("bool", "int", "float", "str", "subpackage", "list", "void")


def operand(S, name, kind):
    if kind == "list":
        n = S.choice(name + ".n", [0, 1, 2])
        return SubPackages([Pkg("P"), Pkg("Q")][:n])
    if kind == "subpackage":
        return Pkg("", [])
    if kind == "void":
        return Void()
    return sym_value(S, name, kind)


def truth(S, v, kind):
    if kind == "bool":
        return v
    if kind in ("int", "float"):
        return v != 0
    if kind == "str":
        return len(v) > 0
    if kind == "list":
        return len(v) > 0
    return True


def binary(S, op, ka, kb):
    a, b = operand(S, "a", ka), operand(S, "b", kb)
    ta, tb = truth(S, a, ka), truth(S, b, kb)
    conj = op in ("and", "&")
    S.cover("and" if conj else "or")
    v, err = evaluate(S, f"a {op} b", {"a": a, "b": b})
    S.check(err is None, "logical operators accept any value")
    S.check(isinstance(v.value, bool), f"{ka} {op} {kb} must give a bool")
    want = S.all(ta, tb) if conj else S.any(ta, tb)
    S.check(S.iff(v.value, want), f"{ka} {op} {kb} is wrong")


def negation(S, op, k):
    a = operand(S, "a", k)
    S.cover("not")
    v, err = evaluate(S, f"{op} a", {"a": a})
    S.check(err is None, "not accepts any value")
    S.check(isinstance(v.value, bool), "not must give a bool")
    S.check(S.iff(v.value, S.no(truth(S, a, k))), f"{op} {k} is wrong")
    v2, _ = evaluate(S, f"{op} ({op} a)", {"a": a})
    S.check(S.iff(v2.value, truth(S, a, k)), "double negation is not the truth value")


def condition(S, k, kb):
    """conditions use the same truth"""
    a, b = operand(S, "a", k), operand(S, "b", kb)
    ta, tb = truth(S, a, k), truth(S, b, kb)
    x = S.int("x")
    S.cover("condition")
    r = run_script(S, "If a\n x = x + 1\nElif b\n x = x + 2\nElse\n x = x + 4\nEndIf\nIf b\n x = x + 8\nEndIf\n", {"a": a, "b": b, "x": x})
    S.check(r.error is None, "any value is a condition")
    want = x + S.ite(ta, 1, S.ite(tb, 2, 4)) + S.ite(tb, 8, 0)
    S.check(S.same(r.var("x").value, want), f"If and Elif on {k} and {kb}: another truth")
    r = run_script(S, "While a\n x = x + 1\n a = False\nEndWhile\n", {"a": a, "x": x})
    S.check(r.error is None, "any value is a condition")
    S.check(S.same(r.var("x").value, x + S.ite(ta, 1, 0)), f"While on {k}: another truth")


def demorgan(S):
    a, b = S.bool("a"), S.int("b")
    x, _ = evaluate(S, "not (a and b)", {"a": a, "b": b})
    y, _ = evaluate(S, "not a or not b", {"a": a, "b": b})
    S.check(S.same(x.value, y.value), "De Morgan fails")
    x, _ = evaluate(S, "! (a | b)", {"a": a, "b": b})
    y, _ = evaluate(S, "!a & !b", {"a": a, "b": b})
    S.check(S.same(x.value, y.value), "De Morgan fails")


def effects(S, op):
    """both operands are evaluated exactly once, left first"""
    a, b = S.bool("a"), S.bool("b")
    log = []

    def probe(st, vs):
        log.append(vs[0].value)
        return vs[0]

    v, err = evaluate(S, f"f(a) {op} g(b)", {"a": a, "b": b}, functions={"f": probe, "g": probe})
    S.cover("side-effects")
    S.check(err is None, "must be defined")
    S.check(len(log) == 2, "each operand is evaluated exactly once")
    S.check(S.all(S.same(log[0], a), S.same(log[1], b)), "operands are evaluated left to right")


def jobs(tier):
    for op in ("and", "or", "&", "|"):
        for ka in KINDS:
            for kb in KINDS:
                yield f"{ka} {op} {kb}", "binary", {"op": op, "ka": ka, "kb": kb}
        yield f"effects {op}", "effects", {"op": op}
    for op in ("not", "!"):
        for k in KINDS:
            yield f"{op} {k}", "negation", {"op": op, "k": k}
    for ka in KINDS:
        for kb in KINDS:
            yield f"condition {ka} {kb}", "condition", {"k": ka, "kb": kb}
    yield "de morgan", "demorgan", {}
