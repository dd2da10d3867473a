"""C10 For and While loops."""

from harness.common import Pkg, SubPackages, Value, Void, WizardTypeError, kind_of, run_script, sym_value

BOUNDS = {
    "quick": "ranges over all integer starts and ends with up to 4 values, every step -3..3 but 0 and the default step; strings of 0..3 characters; "
    "sub-packages of 0..3 files, lists of 0..3 sub-packages; While loops of up to 4 turns; two nested ranges of up to 3 values each; loops with empty bodies of up to 2 turns; ranges of 30 values, texts, lists and While loops of 12; loops of every kind run 3 times with other bounds",
    "thorough": "as quick with 8 values, steps -6..6, 5 characters/files/sub-packages, 8 turns, nests of 4, 4 turns with empty bodies",
}
ASSUMPTIONS = ["a step of 0 and boolean bounds are outside the claim"]
COVERS = {"all": ["up", "down", "empty", "string", "files", "packages", "while", "type-error", "nested", "fixed", "bare", "long", "again"]}


def logger(log):
    def fn(st, vs):
        log.append(vs[0].value)
        return Value(Void())

    return fn


def span(S, lo, hi, by, most):
    """the values lo, lo+by, ... up to and including hi; at most `most` of them"""
    out = []
    v = lo
    while (v <= hi) if by > 0 else (v >= hi):
        S.assume(len(out) < most)
        out.append(v)
        v = v + by
    return out


def over(S, by, most, defined):
    lo, hi = S.int("lo"), S.int("hi")
    want = span(S, lo, hi, 1 if by is None else by, most)
    log = []
    vs = {"lo": lo, "hi": hi, "n": 0}
    if defined:
        vs["i"] = "old"
    if by is not None:
        vs["step"] = by
    head = "For i from lo to hi" + ("" if by is None else " by step")
    r = run_script(S, f"{head}\n log(i)\n n += 1\nEndFor\n", vs, functions={"log": logger(log)})
    S.check(r.error is None and r.ctx.is_complete(), "the loop must complete")
    S.check(len(log) == len(want), "wrong number of turns")
    S.check(S.same(log, want), "wrong values of the loop variable")
    S.check(S.same(r.var("n").value, len(want)), "changes made by the body are lost")
    if want:
        S.cover("up" if by is None or by > 0 else "down")
        S.check(S.same(r.var("i").value, want[-1]), "the loop variable keeps its last value")
    else:
        S.cover("empty")
        S.check(("i" in r.vars()) == defined, "an empty loop does not touch the variable")
        if defined:
            S.check(r.var("i").value == "old", "an empty loop does not touch the variable")


def fixed(S, by, most):
    """the header is evaluated once: what the body does to its variables, or to the
    loop variable, changes nothing"""
    lo, hi, d = S.int("lo"), S.int("hi"), S.int("d")
    want = span(S, lo, hi, by, most)
    log = []
    S.cover("fixed")
    text = "For i from lo to hi by step\n log(i)\n hi += d\n lo += d\n step = 1\n i = d\nEndFor\n"
    r = run_script(S, text, {"lo": lo, "hi": hi, "d": d, "step": by}, functions={"log": logger(log)})
    S.check(r.error is None, "the loop must complete")
    S.check(len(log) == len(want) and S.same(log, want), "the body changed the range")
    # evaluated once, and their side effects happen
    log.clear()
    x = S.int("x")
    r = run_script(
        S, "For i from f(lo) to f(hi)\n x += 1\nEndFor\n", {"lo": lo, "hi": lo + 1, "x": x}, functions={"f": tee(log)}
    )
    S.check(r.error is None and len(log) == 2, "the bounds are evaluated once")
    S.check(S.same(r.var("x").value, x + 2), "two turns")
    r = run_script(S, "For i from x++ to x++\n y = i\nEndFor\n", {"x": x})
    S.check(r.error is None and S.same(r.var("x").value, x + 2), "side effects of the bounds")
    S.check(S.same(r.var("y").value, x + 2), "side effects of the bounds")


def tee(log):
    def fn(st, vs):
        log.append(vs[0].value)
        return vs[0]

    return fn


def string(S, maxlen):
    s = S.str("s", maxlen, "ascii+")
    log = []
    r = run_script(S, 'For c in s\n log(c)\n s = "xyz"\nEndFor\n', {"s": s}, functions={"log": logger(log)})
    S.cover("string")
    S.check(r.error is None, "the loop must complete")
    S.check(len(log) == len(s), "wrong number of turns")
    S.check(S.all(*[S.same(a, b) for a, b in zip(log, s)]), "wrong characters")


def files(S, most):
    n = S.choice("n", range(most + 1))
    names = [S.str(f"f{i}", 1) for i in range(n)]
    log = []
    r = run_script(S, "For f in p\n log(f)\nEndFor\n", {"p": Pkg("P", names)}, functions={"log": logger(log)})
    S.cover("files")
    S.check(r.error is None and len(log) == n, "wrong number of turns")
    S.check(S.all(*[S.same(a, b) for a, b in zip(log, names)]), "wrong file names")


def packages(S, most, how):
    n = S.choice("n", range(most + 1))
    # names may be equal, or equal up to case
    pkgs = [Pkg(S.str(f"n{i}", 1, chars="Pp") if i else "P", [f"a{i}.esp", "b", "B"]) for i in range(n)]
    log, log2 = [], []
    text = f"For p in {how}\n log(p)\n For f in p\n  log2(f)\n EndFor\nEndFor\n"
    r = run_script(
        S,
        text,
        {"ps": SubPackages(pkgs)},
        subpackages=SubPackages(pkgs),
        functions={"log": logger(log), "log2": logger(log2)},
    )
    S.cover("packages")
    S.check(r.error is None and len(log) == n, "wrong number of turns")
    S.check(all(a is b for a, b in zip(log, pkgs)), "wrong sub-packages")
    S.check(log2 == [f for p in pkgs for f in p.files], "wrong files")


def while_loop(S, most):
    i, n, k = S.int("i"), S.int("n"), S.int("k")
    S.assume(n - i <= most)
    turns = 0
    v = i
    while v < n:
        turns += 1
        v = v + 1
    S.cover("while")
    log, log2 = [], []
    text = "While c(i < n)\n log(i)\n i += 1\n k -= 1\nEndWhile\ndone = 1\n"
    r = run_script(S, text, {"i": i, "n": n, "k": k}, functions={"log": logger(log), "c": tee(log2)})
    S.check(r.error is None and r.ctx.is_complete(), "the loop must complete")
    S.check(len(log) == turns, "wrong number of turns")
    S.check(S.all(*[S.same(a, i + j) for j, a in enumerate(log)]), "wrong values")
    S.check(len(log2) == turns + 1, "the condition is evaluated once before every turn and once at the end")
    S.check(S.same(r.var("i").value, i + turns) and S.same(r.var("k").value, k - turns), "changes made by the body are lost")
    S.check(S.same(r.var("done").value, 1), "the script goes on after the loop")
    # the effects of the condition stay
    r = run_script(S, "While i++ < n\n k += 1\nEndWhile\n", {"i": i, "n": n, "k": k})
    t = 0
    v = i + 1
    while v < n:
        t += 1
        v = v + 1
    S.check(r.error is None and S.same(r.var("k").value, k + t), "wrong number of turns")
    S.check(S.same(r.var("i").value, i + t + 1), "side effects of the condition")


def bad_range(S, at, k):
    args = [S.int("a", 0, 2), S.int("b", 0, 2), S.int("c", 1, 2)]
    args[at] = sym_value(S, "x", k)
    vs = dict(zip("abc", args))
    for text in ["For i from a to b\nEndFor\n"] * (at < 2) + ["For i from a to b by c\nEndFor\n"]:
        r = run_script(S, text, vs)
        S.cover("type-error")
        S.check(isinstance(r.error, WizardTypeError), f"a {k} bound must be a type error")


def bad_in(S, k):
    x = sym_value(S, "x", k)
    r = run_script(S, "For i in x\nEndFor\n", {"x": x})
    if k in ("str", "subpackage", "subpackages"):
        S.check(r.error is None, "must be iterable")
    else:
        S.cover("type-error")
        S.check(isinstance(r.error, WizardTypeError), f"iterating a {k} must be a type error")


def nested(S, most, bys):
    a, b, c, d = S.int("a"), S.int("b"), S.int("c"), S.int("d")
    log = []

    def pair(st, vs):
        log.append((vs[0].value, vs[1].value))
        return Value(Void())

    want = []
    for i in span(S, a, b, bys[0], most):
        for j in span(S, c, d + i if bys[2] else d, bys[1], most):
            want.append((i, j))
    end = "d + i" if bys[2] else "d"
    S.cover("nested")
    text = f"For i from a to b by {bys[0]}\n For j from c to {end} by {bys[1]}\n  log(i, j)\n EndFor\nEndFor\n"
    r = run_script(S, text, {"a": a, "b": b, "c": c, "d": d}, functions={"log": pair})
    S.check(r.error is None and len(log) == len(want), "wrong number of turns")
    S.check(S.same(log, want), "wrong values in a nested loop")


def again(S, kind, most):
    """a loop inside another one starts anew every time, with the values of that time"""
    log = []

    def pair(st, vs):
        log.append((vs[0].value, vs[1].value))
        return Value(Void())

    S.cover("again")
    env, want = {}, []
    if kind in ("range", "step"):
        a, d = S.int("a"), S.int("d", 0, most)
        env = {"a": a, "d": d}
        inner = "For j from a to a + d - i" + (" by 1 + i" if kind == "step" else "")
        for i in range(3):
            want += [(i, j) for j in span(S, a, a + d - i, 1 + i if kind == "step" else 1, most + 1)]
    elif kind == "string":
        s = S.str("s", 2)
        env = {"s": s}
        inner = "For j in s[i:]"
        want = [(i, c) for i in range(3) for c in s[i:]]
    elif kind == "packages":
        n = S.choice("n", range(3))
        ps = [Pkg("P", ["a", "b"][:n]), Pkg("Q", ["c"]), Pkg("R", [])]
        env = {"ps": SubPackages(ps)}
        inner = "For j in ps[i]"
        want = [(i, f) for i, p in enumerate(ps) for f in p.files]
    elif kind == "kinds":
        x = S.str("s", 2)
        env = {"t": x, "p": Pkg("P", ["a", "b"])}
        inner = "For j in t"
        want = [(0, c) for c in x] + [(i, f) for i in (1, 2) for f in ("a", "b")]
    else:
        a = S.int("a", 0, most)
        env = {"a": a, "j": 0}
        inner = "j = 0\nWhile j < a - i"
        want = []
        for i in range(3):
            k = 0
            while k < a - i:
                want.append((i, k))
                k += 1
    tail = "j++\n EndWhile\n" if kind == "while" else "EndFor\n"
    change = "t = p\n" if kind == "kinds" else ""
    r = run_script(S, f"For i from 0 to 2\n {inner}\n log(i, j)\n {tail}{change}EndFor\n", env, functions={"log": pair})
    S.check(r.error is None and len(log) == len(want), "wrong number of turns of a loop run again")
    S.check(S.same(log, want), "wrong values in a loop run again")


def long_range(S, by, n):
    lo, r_ = S.int("lo"), S.int("rest", 0, abs(by) - 1)
    hi = lo + by * (n - 1) + (r_ if by > 0 else -r_)
    log = []
    S.cover("long")
    r = run_script(S, f"For i from lo to hi by {by}\n log(i)\n n += 1\nEndFor\n", {"lo": lo, "hi": hi, "n": 0}, functions={"log": logger(log)})
    S.check(r.error is None and len(log) == n, "wrong number of turns")
    S.check(S.same(log, [lo + by * i for i in range(n)]), "wrong values of the loop variable")
    S.check(S.same(r.vars(), {"lo": lo, "hi": hi, "n": n, "i": lo + by * (n - 1)}), "wrong variables")


def long_values(S, n):
    """long strings, sub-packages and lists"""
    s = S.str("s", n, "ascii+", minlen=n)
    x = S.int("x")
    files = [S.str(f"f{i}", 1, minlen=1) for i in range(n)]
    pkgs = [Pkg(f"P{i}", files[: i % 3]) for i in range(n)]
    log = []
    S.cover("long")
    text = "For c in s\n log(c)\nEndFor\nFor f in p\n log(f)\nEndFor\nFor q in SubPackages\n log(q)\n For f in q\n  log(f)\n EndFor\nEndFor\nWhile k < n\n log(x)\n x += 2\n k++\nEndWhile\n"
    r = run_script(S, text, {"s": s, "p": Pkg("P", files), "x": x, "k": 0, "n": n}, subpackages=SubPackages(pkgs), functions={"log": logger(log)})
    want = [*s, *files]
    for p in pkgs:
        want += [p, *p.files]
    want += [x + 2 * i for i in range(n)]
    S.check(r.error is None and len(log) == len(want), "wrong number of turns")
    S.check(S.all(*[a is b if isinstance(b, Pkg) else S.same(a, b) for a, b in zip(log, want)]), "wrong values")


def bare(S, most, inside):
    """loops without a statement in them"""
    a, b, n, x = S.int("a"), S.int("b"), S.int("n"), S.int("x")
    t = S.str("t", 3, "ascii+")
    want = span(S, a, b, 1, most)
    S.assume(n - x <= most)
    turns, v = 0, x + 1
    while v <= n:
        turns += 1
        v = v + 1
    text = "For i from a to b\nEndFor\nFor c in t\n ; nothing\nEndFor\nWhile x++ <= n\nEndWhile\nWhile False\nEndWhile\ny += 1\n"
    text = text.replace("x++ <= n", "++x <= n")
    if inside:
        text = f"While y == 0\nIf True\n{text}EndIf\nEndWhile\n"
    S.cover("bare")
    env = {"a": a, "b": b, "t": t, "n": n, "x": x, "y": 0}
    r = run_script(S, text, env)
    S.check(r.error is None and r.ctx.is_complete(), "the loops must complete")
    env["x"], env["y"] = x + turns + 1, 1
    if want:
        env["i"] = want[-1]
    if len(t):
        env["c"] = t[-1]
    S.check(set(r.vars()) == set(env), "other variables")
    S.check(S.same(r.vars(), env), "wrong variables after loops without statements")


def jobs(tier):
    q = tier == "quick"
    for k in ("range", "step", "string", "packages", "kinds", "while"):
        yield f"again {k}", "again", {"kind": k, "most": 3 if q else 5}
    n, st, m = (4, 3, 3) if q else (8, 6, 5)
    for by in [None, *range(-st, 0), *range(1, st + 1)]:
        for dfd in (False, True):
            yield f"range {by} {dfd}", "over", {"by": by, "most": n, "defined": dfd}
        if by is not None:
            yield f"fixed {by}", "fixed", {"by": by, "most": n}
    yield "string", "string", {"maxlen": m}
    yield "files", "files", {"most": m}
    for how in ("SubPackages", "ps"):
        yield f"packages {how}", "packages", {"most": m, "how": how}
    yield "while", "while_loop", {"most": n}
    for k in ("float", "str", "subpackage", "subpackages", "void"):
        for at in range(3):
            yield f"bad range {at} {k}", "bad_range", {"at": at, "k": k}
    for k in ("bool", "int", "float", "str", "subpackage", "subpackages", "void"):
        yield f"bad in {k}", "bad_in", {"k": k}
    w = 3 if q else 4
    for x in (1, -1, 2):
        for y in (1, -2):
            for dep in (False, True):
                yield f"nested {x} {y} {dep}", "nested", {"most": w, "bys": [x, y, dep]}
    for by in (1, -1, 7, -5):
        yield f"long {by}", "long_range", {"by": by, "n": 30 if q else 100}
    yield "long values", "long_values", {"n": 12 if q else 40}
    for inside in (False, True):
        yield f"bare {inside}", "bare", {"most": 2 if q else 4, "inside": inside}
