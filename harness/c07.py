"""C07 the built-in functions and their method forms."""

from harness.common import (
    ALL_KINDS,
    Pkg,
    SubPackages,
    Value,
    Void,
    WizardNameError,
    WizardTypeError,
    evaluate,
    kind_of,
    sym_value,
)

BOUNDS = {
    "quick": "strings of 0..3 characters (find/rfind) and 0..2 (prefix, suffix, case), up to 3 prefixes; positions over all integers; "
    "|int| <= 999 for decimal conversion, all integers and finite doubles |x| < 2**53 otherwise; digit strings of 1..4 characters; arguments of "
    "every kind; 0..5 arguments; texts of 20 characters (7 for find and rfind of a fixed text); 6 integers of up to 31 digits in texts and as numbers",
    "thorough": "as quick with strings of 0..5 and 0..3 characters, |int| <= 99999 and digit strings of 1..7 characters, texts of 60 (9) characters",
}
ASSUMPTIONS = [
    "the decimal text of a float, and int()/float() of a text that is not a decimal integer, are outside the claim",
    "str() of a list or of the void value is outside the claim",
]
COVERS = {
    "all": ["str", "int", "float", "len", "affix", "lower", "find", "find-default", "arity", "method", "no-method", "roundtrip", "other-kind", "long", "numbers"]
}


def call(S, fn, args, form="call", **kw):
    """fn(a0, a1, ...) or a0.fn(a1, ...)"""
    vs = {f"a{i}": a for i, a in enumerate(args)}
    names = list(vs)
    if form == "call":
        text = f"{fn}({', '.join(names)})"
    else:
        text = f"{names[0]}.{fn}({', '.join(names[1:])})"
    return evaluate(S, text, vs)


def to_str(S, k, form, bound):
    if k == "int":
        x = S.int("x", -bound, bound)
    else:
        x = sym_value(S, "x", k, domain="ascii+")
    v, err = call(S, "str", [x], form)
    S.cover("str")
    S.check(err is None, f"str({k}) must be defined")
    v = v.value
    S.check(isinstance(v, str), "str gives a string")
    if k == "str":
        S.check(S.same(v, x), "str of a string is that string")
    elif k == "bool":
        S.check(S.same(v, "True") if x else S.same(v, "False"), "str of a bool")
    elif k == "subpackage":
        S.check(S.same(v, "P"), "str of a sub-package is its name")
    elif k == "int":
        neg = x < 0
        digits = v
        if neg:
            S.check(len(v) > 1 and v[0] == "-", "sign")
            digits = v[1:]
        else:
            S.check(len(v) > 0, "no digits")
        total = 0
        for ch in digits:
            S.check(S.all(ch >= "0", ch <= "9"), "not a digit")
            total = total * 10 + (ord(ch) - ord("0"))
        S.check(total == (-x if neg else x), "str of an integer is not its decimal text")
        S.check(len(digits) == 1 or digits[0] != "0", "leading zero")


def roundtrip(S, bound):
    x = S.int("x", -bound, bound)
    S.cover("roundtrip")
    v, err = evaluate(S, "int(str(x))", {"x": x})
    S.check(err is None and S.same(v.value, x), "int(str(x)) is not x")
    v, err = evaluate(S, "int(x.str()) + 0", {"x": x})
    S.check(err is None and S.same(v.value, x), "int(x.str()) is not x")


def to_int(S, k, form, nd):
    if k == "str":
        x = S.str("x", nd, "digits", minlen=1)
        S.cover("int")
        v, err = call(S, "int", [x], form)
        want = 0
        for ch in x:
            want = want * 10 + (ord(ch) - 48)
        S.check(err is None and S.same(v.value, want), "int of a digit string")
        v, err = evaluate(S, "int(a) + int(b)", {"a": "-" + x, "b": "+" + x})
        S.check(err is None and S.same(v.value, 0), "int of a signed digit string")
        return
    x = sym_value(S, "x", k)
    if k == "float":
        S.assume(x < 9007199254740992.0)
        S.assume(x > -9007199254740992.0)
    v, err = call(S, "int", [x], form)
    if form == "method" and k != "str":
        S.cover("no-method")
        S.check(isinstance(err, WizardNameError), "int is a method of strings only")
        return
    S.cover("int")
    S.check(err is None, f"int({k}) must be defined")
    v = v.value
    S.check(isinstance(v, int) and not isinstance(v, bool), "int gives an integer")
    if k == "bool":
        S.check(S.iff(v == 1, x), "int of a bool")
        S.check(S.any(v == 0, v == 1), "int of a bool")
    elif k == "int":
        S.check(S.same(v, x), "int of an integer")
    elif k == "float":
        S.check(S.same(v, int(x)), "int of a float truncates")
    else:
        S.check(S.same(v, 0), "int of anything else is 0")


def to_float(S, k, form):
    x = S.str("x", 1, "digits", minlen=1) if k == "str" else sym_value(S, "x", k)
    if k == "int":
        S.assume(x < 9007199254740992)
        S.assume(x > -9007199254740992)
    v, err = call(S, "float", [x], form)
    if form == "method" and k != "str":
        S.check(isinstance(err, WizardNameError), "float is a method of strings only")
        return
    S.cover("float")
    S.check(err is None, f"float({k}) must be defined")
    v = v.value
    S.check(isinstance(v, float), "float gives a float")
    if k == "bool":
        S.check(S.same(v, 1.0) if x else S.same(v, 0.0), "float of a bool")
    elif k == "int":
        S.check(v == x, "float of an integer in the exact range")
    elif k == "float":
        S.check(S.same(v, x), "float of a float")
    elif k == "str":
        for d in range(10):
            if x == str(d):
                S.check(S.same(v, float(d)), "float of a digit")
    else:
        S.check(S.same(v, 0.0), "float of anything else is 0")


def length(S, k, form, maxlen):
    x = sym_value(S, "x", k, maxlen=maxlen)
    v, err = call(S, "len", [x], form)
    if form == "method" and k != "str":
        S.check(isinstance(err, WizardNameError), "len is a method of strings only")
        return
    S.cover("len")
    n = 0
    if k == "str":
        for _ in x:
            n += 1
    else:
        S.cover("other-kind")
    S.check(err is None and S.same(v.value, n), f"len({k})")


def starts(S, s, p, end):
    n, m = len(s), len(p)
    if m > n:
        return False
    if end:
        return S.all(*[s[n - m + i] == p[i] for i in range(m)])
    return S.all(*[s[i] == p[i] for i in range(m)])


def affix(S, fn, ks, kps, form, maxlen):
    s = sym_value(S, "s", ks, maxlen=maxlen)
    ps = [sym_value(S, f"p{i}", k, maxlen=maxlen) for i, k in enumerate(kps)]
    v, err = call(S, fn, [s, *ps], form)
    if form == "method" and ks != "str":
        S.check(isinstance(err, WizardNameError), "a method of strings only")
        return
    S.cover("affix")
    S.check(err is None and isinstance(v.value, bool), f"{fn} must be a bool")
    want = False
    if ks == "str":
        want = S.any(*[starts(S, s, p, fn == "endswith") for p, k in zip(ps, kps) if k == "str"])
    else:
        S.cover("other-kind")
    S.check(S.iff(v.value, want), f"{fn} is wrong")


def lower(S, k, form, maxlen):
    x = sym_value(S, "x", k, maxlen=maxlen, domain="uni")
    v, err = call(S, "lower", [x], form)
    if form == "method" and k != "str":
        S.check(isinstance(err, WizardNameError), "a method of strings only")
        return
    S.cover("lower")
    S.check(err is None, "lower must be defined")
    if k != "str":
        S.cover("other-kind")
        S.check(S.same(v.value, x), "lower leaves other values alone")
        return
    S.check(S.same(v.value, x.lower()), "lower is the lower case text")
    S.check(len(v.value) == len(x), "length")
    for a, b in zip(x, v.value):
        if S.all(a >= "A", a <= "Z"):
            S.check(ord(b) == ord(a) + 32, "upper case letter")
        elif a < "\x80":
            S.check(a == b, "other ASCII character")


def find(S, fn, form, extra, maxlen, subchars):
    s = S.str("s", maxlen, chars="abA")
    t = S.str("t", subchars, chars="abA")
    n, m = len(s), len(t)
    args = [s, t]
    lo, hi = 0, n
    if extra >= 1:
        a = S.int("a")
        args.append(a)
        lo = a
        if a < 0:
            lo = a + n
            if lo < 0:
                lo = 0
    else:
        S.cover("find-default")
    if extra >= 2:
        b = S.int("b")
        args.append(b)
        if b == -1:
            hi = n
        elif b < 0:
            hi = b + n
            if hi < 0:
                hi = 0
        elif b < n:
            hi = b
    v, err = call(S, fn, args, form)
    S.cover("find")
    S.check(err is None, f"{fn} with {extra} positions must be defined")
    want = -1
    order = range(n - m + 1)
    for i in order if fn == "find" else reversed(order):
        if lo <= i and i + m <= hi and S.all(*[s[i + j] == t[j] for j in range(m)]):
            want = i
            break
    S.check(S.same(v.value, want), f"{fn} is wrong")


def long_find(S, fn, n, k):
    """a short text somewhere in a long one"""
    s = S.str("s", n, chars="ab", minlen=n)
    t = "ab" if k == 2 else "bab"
    a = S.choice("a", [0, 3, n - 2, -n, -4, n + 3])
    b = S.choice("b", [-1, n, n - 1, -2])
    v, err = call(S, fn, [s, t, a, b])
    lo = a if a >= 0 else max(a + n, 0)
    hi = n if b == -1 else b if b >= 0 else b + n
    S.cover("long")
    want = -1
    order = range(lo, hi - k + 1)
    for i in order if fn == "find" else reversed(order):
        if S.all(*[s[i + j] == t[j] for j in range(k)]):
            want = i
            break
    S.check(err is None and S.same(v.value, want), f"{fn} is wrong")


def long_text(S, n):
    """functions of long texts"""
    s = S.str("s", n, "ascii", minlen=n)
    m = S.choice("m", [0, 1, n // 2, n - 1, n])
    S.cover("long")
    for form in ("call", "method"):
        v, err = call(S, "len", [s], form)
        S.check(err is None and S.same(v.value, n), "len")
        v, err = call(S, "lower", [s], form)
        S.check(err is None and S.same(v.value, s.lower()), "lower")
        v, err = call(S, "str", [s], form)
        S.check(err is None and S.same(v.value, s), "str")
        for fn, p in (("startswith", s[:m]), ("endswith", s[n - m :])):
            v, err = call(S, fn, [s, p], form)
            S.check(err is None and v.value is True, f"{fn} is wrong")
            q = S.str("q" + fn + form, n, "ascii", minlen=n)
            v, err = call(S, fn, [s, "x" * (n + 1), q], form)
            S.check(err is None and S.iff(v.value, S.same(s, q)), f"{fn} is wrong")


def numbers(S, fn, form):
    """large numbers, and numbers in texts"""
    n = S.choice("n", [0, 7, 2**53 + 1, 10**18 + 1, 2**64 - 1, 10**30 + 1])
    sign = S.choice("sign", ["", "-", "+"])
    S.cover("numbers")
    want = -n if sign == "-" else n
    if fn == "int":
        zeros = S.choice("zeros", ["", "000"])
        v, err = call(S, "int", [sign + zeros + str(n)], form)
        S.check(err is None and type(v.value) is int and v.value == want, "int of the digits of an integer")
        if form == "call":
            v, err = call(S, "int", [want], form)
            S.check(err is None and type(v.value) is int and v.value == want, "int of an integer")
    elif fn == "str":
        v, err = call(S, "str", [want], form)
        S.check(err is None and v.value == ("-" if want < 0 else "") + str(n), "str of an integer")
    else:
        frac = S.choice("frac", ["", ".5", ".25", ".0"])
        v, err = call(S, "float", [sign + str(n) + frac], form)
        S.check(err is None and type(v.value) is float and v.value == float(sign + str(n) + frac), "float of the digits of a number")


def find_other(S, fn, at, k):
    args = [S.str("s", 1), S.str("t", 1), S.int("a"), S.int("b")]
    ok = [("str",), ("str",), ("int", "bool"), ("int", "bool")]
    if k in ok[at]:
        return
    args[at] = sym_value(S, "o", k)
    S.cover("other-kind")
    for n in range(max(2, at + 1), 5):
        v, err = call(S, fn, args[:n])
        S.check(err is None and S.same(v.value, -1), f"{fn} with an argument of another kind is -1")


ARITY = {
    "str": (1, 1),
    "int": (1, 1),
    "float": (1, 1),
    "len": (1, 1),
    "lower": (1, 1),
    "startswith": (1, None),
    "endswith": (1, None),
    "find": (2, 4),
    "rfind": (2, 4),
}


def arity(S, fn, n):
    s = S.str("s", 1, "digits", minlen=1)
    args = [s for _ in range(n)]
    for i in range(2, n):
        if fn in ("find", "rfind"):
            args[i] = S.int(f"i{i}")
    v, err = call(S, fn, args)
    lo, hi = ARITY[fn]
    S.cover("arity")
    if n < lo or (hi is not None and n > hi):
        S.check(isinstance(err, WizardTypeError), f"{fn} with {n} arguments must be a type error")
    else:
        S.check(err is None, f"{fn} with {n} arguments must be accepted")
    if n > 0:
        m, merr = call(S, fn, args, "method")
        S.cover("method")
        S.check((merr is None) == (err is None), "the method form accepts the same arguments")
        if err is None:
            S.check(S.same(v.value, m.value), "the method form gives the same value")
        else:
            S.check(isinstance(merr, WizardTypeError), "the method form fails alike")


def method_kinds(S, fn, k):
    """which kinds have which methods"""
    if k == "str":
        x = S.str("x", 1, "digits", minlen=1)
    elif k == "float":
        x = S.choice("x", [0.0, -1.5, 1e300])
    else:
        x = sym_value(S, "x", k, bound=99)
    args = [x] + ([S.str("t", 1)] if fn in ("find", "rfind") else [])
    v, err = call(S, fn, args, "method")
    if k == "str" or (fn == "str" and k in ("int", "float", "bool")):
        S.cover("method")
        S.check(err is None, f"{k} must have the method {fn}")
    else:
        S.cover("no-method")
        S.check(isinstance(err, WizardNameError), f"{k} has no method {fn}")


def jobs(tier):
    q = tier == "quick"
    ml, sl = (3, 2) if q else (5, 3)
    bound, nd = (999, 4) if q else (99999, 7)
    for k in ("str", "bool", "int", "subpackage"):
        yield f"str({k})", "to_str", {"k": k, "form": "call", "bound": bound}
        if k != "subpackage":
            yield f"{k}.str()", "to_str", {"k": k, "form": "method", "bound": bound}
    yield "roundtrip", "roundtrip", {"bound": bound}
    for k in ALL_KINDS:
        for form in ("call", "method"):
            yield f"int {k} {form}", "to_int", {"k": k, "form": form, "nd": nd}
            yield f"float {k} {form}", "to_float", {"k": k, "form": form}
            yield f"len {k} {form}", "length", {"k": k, "form": form, "maxlen": ml}
            yield f"lower {k} {form}", "lower", {"k": k, "form": form, "maxlen": sl}
            for fn in ("startswith", "endswith"):
                for kps in ([], ["str"], ["str", "str"], ["int", "str"], ["str", "str", "str"], ["subpackage", "void"]):
                    if k != "str" and len(kps) > 1:
                        continue
                    m = sl if len(kps) < 3 else sl - 1
                    yield f"{fn} {k} {kps} {form}", "affix", {"fn": fn, "ks": k, "kps": kps, "form": form, "maxlen": m}
        for fn in ARITY:
            yield f"method {fn} {k}", "method_kinds", {"fn": fn, "k": k}
        for fn in ("find", "rfind"):
            for at in range(4):
                yield f"{fn} other {at} {k}", "find_other", {"fn": fn, "at": at, "k": k}
    for fn in ("find", "rfind"):
        for extra in (0, 1, 2):
            for form in ("call", "method"):
                yield f"{fn} {extra} {form}", "find", {"fn": fn, "form": form, "extra": extra, "maxlen": ml, "subchars": sl}
    for fn in ("find", "rfind"):
        for k in (2, 3):
            yield f"long {fn} {k}", "long_find", {"fn": fn, "n": 7 if q else 9, "k": k}
    yield "long text", "long_text", {"n": 20 if q else 60}
    for fn in ("int", "str", "float"):
        for form in ("call", "method"):
            yield f"numbers {fn} {form}", "numbers", {"fn": fn, "form": form}
    for fn in ARITY:
        for n in range(0, 6):
            yield f"arity {fn} {n}", "arity", {"fn": fn, "n": n}
