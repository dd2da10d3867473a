"""C04 indexing and slicing."""

from harness.common import (
    Pkg,
    SubPackages,
    Value,
    WizardIndexError,
    WizardTypeError,
    evaluate,
    sym_value,
)

BOUNDS = {
    "quick": "strings of 0..3 printable characters, lists of 0..3 sub-packages, names of 0..2 characters; index, start, end and "
    "step over all integers; all 12 ways of leaving out slice parts; indices into texts of 27 characters, and slices of texts of 9 with steps 1, 2, -1, -3",
    "thorough": "as quick with strings of 0..5 characters and lists of 0..5, 48 and 16 characters for the long texts",
}
ASSUMPTIONS = ["a slice step of 0 is outside the claim"]
COVERS = {"all": ["in", "out", "slice", "neg-step", "type-error", "list", "name", "long"]}


def nth(S, seq, k, n):
    """seq[k] for 0 <= k < n"""
    for i in range(n):
        if k == i:
            return seq[i]
    S.fail("unreachable")


def index(S, maxlen, what):
    if what == "str":
        seq = S.str("s", maxlen)
        obj = seq
    elif what == "name":
        seq = S.str("s", min(maxlen, 2))
        obj = Pkg(seq, ["f"])
    else:
        n = S.choice("n", range(maxlen + 1))
        seq = [Pkg("P" + str(i), []) for i in range(n)]
        obj = SubPackages(seq)
    n = len(seq)
    k = S.int("k")
    v, err = evaluate(S, "s[k]", {"s": obj, "k": k})
    if k >= 0 and k < n or k < 0 and k >= -n:
        S.cover("in")
        S.check(err is None, "an index inside the range must be accepted")
        at = k if k >= 0 else k + n
        want = nth(S, seq, at, n)
        if what == "list":
            S.cover("list")
            S.check(v.value is want, "wrong element")
        else:
            if what == "name":
                S.cover("name")
            S.check(S.same(v.value, want), "wrong character")
    else:
        S.cover("out")
        S.check(isinstance(err, WizardIndexError), "an index outside the range must be an index error")
        S.check(S.same(err.index, k), "the index error must report the index")


def bad_index(S, kobj, kidx):
    o = sym_value(S, "o", kobj)
    i = sym_value(S, "i", kidx)
    _, err = evaluate(S, "o[i]", {"o": o, "i": i})
    if kobj in ("str", "subpackage", "subpackages") and kidx in ("int", "bool"):
        S.check(err is None or isinstance(err, WizardIndexError), "indexing must be defined")
        return
    S.cover("type-error")
    S.check(isinstance(err, WizardTypeError), f"{kobj}[{kidx}] must be a type error")


def bound(v, n, dflt, neg):
    """first/last position of a slice after Python's clamping"""
    if v is None:
        return dflt
    lo, hi = (-1, n - 1) if neg else (0, n)
    if v < 0:
        if v + n < lo:
            return lo
        return v + n
    if v > hi:
        return hi
    return v


def slices(S, form, maxlen):
    s = S.str("s", maxlen)
    n = len(s)
    a = S.int("a") if "a" in form else None
    b = S.int("b") if "b" in form else None
    c = S.int("c") if "c" in form else None
    v, err = evaluate_slice(S, form, s, a, b, c)
    S.check(err is None, "slicing a string with integers must be defined")
    S.cover("slice")
    step = 1
    if c is not None:
        if c < 0:
            S.cover("neg-step")
            step = -n - 1 if c < -n else c
        else:
            step = n + 1 if c > n else c
    neg = step < 0
    i = bound(a, n, n - 1 if neg else 0, neg)
    e = bound(b, n, -1 if neg else n, neg)
    want = ""
    while (i > e) if neg else (i < e):
        want += nth(S, s, i, n)
        i += step
    S.check(S.same(v.value, want), f"s[{form}] is wrong")


def evaluate_slice(S, form, s, a, b, c):
    if c is not None:
        S.assume(c != 0)
    vs = {"s": s}
    if a is not None:
        vs["a"] = a
    if b is not None:
        vs["b"] = b
    if c is not None:
        vs["c"] = c
    return evaluate(S, f"s[{form}]", vs)


def long(S, n, step):
    """a longer text, a fixed step"""
    s = S.str("s", n, minlen=n)
    a, b, k = S.int("a"), S.int("b"), S.int("k")
    if step is None:
        v, err = evaluate(S, "s[k]", {"s": s, "k": k})
        S.cover("long")
        if S.all(k < n, k >= -n):
            S.check(err is None and S.same(v.value, nth(S, s, k if k >= 0 else k + n, n)), "wrong character")
        else:
            S.check(isinstance(err, WizardIndexError), "an index outside the range must be an index error")
        return
    v, err = evaluate(S, f"s[a:b:{step}]", {"s": s, "a": a, "b": b})
    S.check(err is None, "slicing a string with integers must be defined")
    i, e = bound(a, n, 0, step < 0), bound(b, n, n, step < 0)
    want = ""
    while (i > e) if step < 0 else (i < e):
        want += nth(S, s, i, n)
        i += step
    S.check(S.same(v.value, want), f"s[a:b:{step}] is wrong")


def bad_slice(S, kobj, kidx, form):
    o = sym_value(S, "o", kobj)
    i = sym_value(S, "i", kidx)
    if kidx == "int":
        S.assume(i != 0)
    if kidx == "bool":
        S.assume(i)
    _, err = evaluate(S, f"o[{form}]", {"o": o, "i": i})
    if kobj == "str" and kidx in ("int", "bool"):
        S.check(err is None, "slicing must be defined")
        return
    S.cover("type-error")
    S.check(isinstance(err, WizardTypeError), f"{kobj}[{form}] with {kidx} must be a type error")


FORMS = [":", "a:", ":b", "a:b", "::", "::c", "a::", "a::c", ":b:", ":b:c", "a:b:", "a:b:c"]
KINDS = ("bool", "int", "float", "str", "subpackage", "subpackages", "void")


def jobs(tier):
    ml = 3 if tier == "quick" else 5
    for w in ("str", "list", "name"):
        yield f"index {w}", "index", {"what": w, "maxlen": ml}
    for f in FORMS:
        m = ml
        if tier != "quick" and f == "a:b:c":
            m = 4
        yield f"slice {f}", "slices", {"form": f, "maxlen": m}
    n = 9 if tier == "quick" else 16
    yield "long", "long", {"n": 3 * n, "step": None}
    for step in (1, 2, -1, -3):
        yield f"long {step}", "long", {"n": n, "step": step}
    for ko in KINDS:
        for ki in KINDS:
            yield f"{ko}[{ki}]", "bad_index", {"kobj": ko, "kidx": ki}
            for f in ("i:", ":i", "::i"):
                yield f"{ko}[{f}] {ki}", "bad_slice", {"kobj": ko, "kidx": ki, "form": f}
