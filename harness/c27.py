"""C27 in and in: look for a whole name."""

from harness.common import ALL_KINDS, Pkg, SubPackages, WizardTypeError, evaluate, sym_value

BOUNDS = {
    "quick": "`in` and `in:` of arbitrary texts of 0..2 characters out of ASCII and Latin-1 letters (1 character of the mixed alphabet (ASCII, Latin-1 letters, ſ, Cyrillic, ẞ, €, the Kelvin sign)) in lists of 0..3 sub-packages and in sub-packages of 0..3 files with arbitrary names of "
    "0..2 characters (0..1 when there are 3); of a sub-package in both; every pair of operand types; negated, in sums and in parentheses, and the colon before or after the container; 9 names of 12 letters, one of them arbitrary and at an arbitrary place",
    "thorough": "as quick with names of up to 3 characters, 4 names of 1 character and 2 names of 2 characters of the mixed alphabet",
}
ASSUMPTIONS = ["ignoring case means comparing lower-cased texts (the documented meaning)"]
COVERS = {"all": ["found", "missing", "other-case", "empty", "type-error", "part", "package-item"]}


def container(S, what, n, maxlen, dom, minlen=0):
    names = [S.str(f"n{i}", maxlen, dom, minlen=minlen) for i in range(n)]
    if what == "SubPackages":
        return names, SubPackages([Pkg(x) for x in names])
    return names, SubPackages([Pkg("zz", names)])


def text(S, what, op, n, maxlen, dom, item, form):
    names, world = container(S, what, n, maxlen, dom)
    q = S.str("q", maxlen, dom)
    env = {"q": q}
    if what != "SubPackages":
        env["p"] = world[0]
    where = "SubPackages" if what == "SubPackages" else "p"
    left = "q"
    if item == "package":
        S.cover("package-item")
        left = "k"
        env["k"] = Pkg(q, ["x"])
    want = False
    for x in names:
        a, b = (q.lower(), x.lower()) if op == "in:" else (q, x)
        if a == b:
            want = True
            break
    if op == "in":
        if not want:
            for x in names:
                if x.lower() == q.lower():
                    S.cover("other-case")
                elif len(q) == 1 and len(x) == 2 and q == x[0]:
                    S.cover("part")
    S.cover("found" if want else "missing")
    if n == 0:
        S.cover("empty")
    expr = {
        "plain": "{l} {op} {w}",
        "not": "not ({l} {op} {w})",
        "sum": "0 + ({l} {op} {w})",
        "twice": "({l} {op} {w}) == ({l} {op} {w})",
        "parens": "({l} {op} ({w}))",
        "after": "{l} in {w}" + op[2:],
    }[form].format(l=left, op=op, w=where)
    v, err = evaluate(S, expr, env, subpackages=world)
    S.check(err is None, "unexpected error")
    S.check(S.same(v.value, {"plain": want, "not": not want, "sum": 1 if want else 0, "twice": True, "parens": want, "after": want}[form]), f"{expr}: wrong result")


def many(S, what, op):
    """a long name among many long ones"""
    names = [f"Files Part {c}" for c in "abcdefghi"]
    at = S.choice("at", [0, 1, 4, 7, 8])
    names[at] = S.str("n", 12, "latin", minlen=12)
    q = S.str("q", 12, "latin", minlen=12)
    world = SubPackages([Pkg(x) for x in names]) if what == "SubPackages" else SubPackages([Pkg("zz", names)])
    want = S.any(*[q.lower() == x.lower() if op == "in:" else q == x for x in names])
    env = {"q": q} if what == "SubPackages" else {"q": q, "p": world[0]}
    v, err = evaluate(S, f"q {op} " + ("SubPackages" if what == "SubPackages" else "p"), env, subpackages=world)
    S.check(err is None, "unexpected error")
    S.check(S.iff(v.value, want), "wrong result among many names")
    S.cover("found" if v.value else "missing")


def types(S, op, left, right):
    world = SubPackages([Pkg("P", ["a.esp"]), Pkg("Q", [])])
    env = {"a": sym_value(S, "a", left, 1), "b": world if right == "subpackages" else sym_value(S, "b", right, 1)}
    v, err = evaluate(S, f"a {op} b", env, subpackages=world)
    if left in ("str", "subpackage") and right in ("subpackage", "subpackages"):
        S.check(err is None and v.type.name == "BOOL", "must be a boolean")
        return
    S.cover("type-error")
    S.check(v is None and isinstance(err, WizardTypeError), "must be a type error")


def jobs(tier):
    q = tier == "quick"
    for what in ("SubPackages", "files"):
        for op in ("in", "in:"):
            for n in range(4 if q else 5):
                for form in ("plain", "not", "sum", "twice", "parens", "after"):
                    m = 2 if n < 3 else 1
                    if form != "plain":
                        m = 1
                    if not q and n < 3 and form == "plain" and op == "in":
                        m = 3
                    yield f"{what} {op} {n} {form}", "text", {"what": what, "op": op, "n": n, "maxlen": m, "dom": "latin", "item": "text", "form": form}
            yield f"{what} {op} many", "many", {"what": what, "op": op}
            yield f"{what} {op} package", "text", {"what": what, "op": op, "n": 2, "maxlen": 1, "dom": "latin", "item": "package", "form": "plain"}
            yield f"{what} {op} uni", "text", {"what": what, "op": op, "n": 2, "maxlen": 1, "dom": "uni", "item": "text", "form": "plain"}
            if not q:
                yield f"{what} {op} uni 2", "text", {"what": what, "op": op, "n": 2, "maxlen": 2, "dom": "uni", "item": "text", "form": "plain"}
    for op in ("in", "in:"):
        for l in ALL_KINDS:
            for r in ALL_KINDS:
                yield f"types {l} {op} {r}", "types", {"op": op, "left": l, "right": r}
