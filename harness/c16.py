"""C16 names of plugins and sub-packages."""

import operator

from harness.common import Pkg, Plugin, Sev, Severity, SubPackage, SubPackages, WizardTypeError, evaluate, run_script

BOUNDS = {
    "quick": "names of 0..2 characters over the mixed alphabet (ASCII, Latin-1 letters, ſ, Cyrillic, ẞ, €, the Kelvin sign) with names and texts of 0..2 characters; sets and dictionaries of 3 names, sorted lists of 3 names, of 0..1 characters "
    "over the mixed alphabet and 1..2 ASCII letters; plugins of file names of up to 6 characters; names of 14 letters in arbitrary case that differ at any one place, and sets of them",
    "thorough": "as quick with names of 0..3 characters over the mixed alphabet, sets and lists of 3 names of 2 characters of the mixed alphabet",
}
ASSUMPTIONS = ["full case folding as defined by the Unicode data of the interpreter"]
COVERS = {"all": ["equal", "other-case", "different", "less", "plugin", "no-plugin", "folder", "foreign", "itself"]}

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def order(S, op, left, right, maxlen):
    """names compare like their case-folded texts, with names and with texts"""
    a, b = S.str("a", maxlen, "uni"), S.str("b", maxlen, "uni")
    make = {"plugin": Plugin, "subpackage": lambda n: Pkg(n), "copy": lambda n: Plugin(Plugin(n)), "text": lambda n: n}
    x, y = make[left](a), make[right](b)
    want = OPS[op](a.casefold(), b.casefold())
    got = OPS[op](x, y)
    S.check(S.same(got, want), f"{left} {op} {right}: wrong result")
    if a.casefold() == b.casefold():
        S.cover("equal")
        if a != b:
            S.cover("other-case")
    else:
        S.cover("different")
        if a.casefold() < b.casefold():
            S.cover("less")


def itself(S, op, kind, maxlen):
    """an object compared with itself, and with another of the same name"""
    a = S.str("a", maxlen, "uni")
    p = Plugin(a) if kind == "plugin" else Pkg(a)
    for o in (p, Plugin(a), Pkg(a), a, a.casefold()):
        S.check(S.same(OPS[op](p, o), op in ("==", "<=", ">=")), f"a {kind} {op} itself")
        S.check(S.same(OPS[op](o, p), op in ("==", "<=", ">=")), f"itself {op} a {kind}")
    S.cover("itself")


def long_names(S, left, right):
    """long names that differ in case, and in one letter at an arbitrary place"""
    n = 14
    base = "Armor of Kings"
    at = S.choice("at", [None, 0, 1, 6, 12, 13])
    a, b = S.str("a", n, "ascii", minlen=n), S.str("b", n, "ascii", minlen=n)
    S.assume(a.lower() == base.lower())
    if at is None:
        S.assume(b.lower() == base.lower())
    else:
        c = S.choice("c", "AbZ ")
        S.assume(b.lower() == (base[:at] + c + base[at + 1 :]).lower())
    x = {"plugin": Plugin, "subpackage": Pkg}[left](a)
    y = {"plugin": Plugin, "subpackage": Pkg, "text": str}[right](b) if right != "text" else b
    f, g = base.casefold(), base.casefold() if at is None else (base[:at] + c + base[at + 1 :]).casefold()
    for op, fn in OPS.items():
        S.check(S.same(fn(x, y), fn(f, g)), f"{left} {op} {right}: wrong result for long names")
    if right != "text":
        S.check(len({x, y}) == (1 if f == g else 2), "wrong number of distinct long names")
        S.check(S.iff(y in {x: 1}, f == g), "wrong membership of long names")
    S.cover("equal" if f == g else "different")


def names(S, maxlen):
    a = S.str("a", maxlen, "uni")
    for p in (Plugin(a), Plugin(Plugin(a)), Pkg(a)):
        S.check(S.same(p.name, a), "wrong name")
        S.check(S.same(str(p), a), "wrong text")
    v, err = evaluate(S, "str(p)", {"p": Pkg(a)})
    S.check(err is None and S.same(v.value, a), "str() of a sub-package is its name")


def sets(S, dom, maxlen, minlen):
    """as elements of sets, keys of dictionaries and in lists"""
    ns = [S.str(f"n{i}", maxlen, dom, minlen=minlen) for i in range(3)]
    fs = [n.casefold() for n in ns]
    ps = [Plugin(ns[0]), Pkg(ns[1]), Plugin(ns[2])]
    distinct = []
    for i, f in enumerate(fs):
        if not any(f == fs[k] for k in distinct):
            distinct.append(i)
    S.check(len(set(ps)) == len(distinct), "wrong number of distinct names")
    S.check(len(dict.fromkeys(ps)) == len(distinct), "wrong number of distinct keys")
    S.check(S.same(bool(ps[2] in ps[:2]), bool(fs[2] == fs[0] or fs[2] == fs[1])), "wrong membership in a list")
    S.check(S.same(bool(ps[2] in set(ps[:2])), bool(fs[2] == fs[0] or fs[2] == fs[1])), "wrong membership in a set")
    S.check(S.same(bool(ns[2] in ps[:2]), bool(fs[2] == fs[0] or fs[2] == fs[1])), "wrong membership of a text in a list")
    got = [p.name.casefold() for p in sorted(ps)]
    for x, y in zip(got, got[1:]):
        S.check(x <= y, "not sorted")
    S.cover("different" if len(distinct) > 1 else "equal")


def foreign(S, op):
    """a name does not compare with anything else"""
    x = S.int("x")
    for p in (Plugin("a"), Pkg("a")):
        for o in (x, None, [1], 1.5):
            try:
                OPS[op](p, o)
            except TypeError:
                S.cover("foreign")
            else:
                S.fail("a name was compared with something that is not a name")
    if op in ("==", "!="):
        return
    for o in ("p {} 1", "1 {} p", "p {} p", 'p {} "p"', "SubPackages {} p"):
        v, err = evaluate(S, o.format(op), {"p": Pkg("p")}, subpackages=SubPackages([Pkg("p")]))
        S.check(v is None and isinstance(err, WizardTypeError), "a sub-package has no order in scripts")


def plugins(S, length, folder):
    """the plugins of a sub-package are the names of its files with a plugin extension"""
    f = S.str("f", length, minlen=length, chars="ae.spmlx" if length > 1 else "ae.spmlx1é")
    g = folder + f
    k = Pkg("P", [g, "x/z.esl"])
    want = []
    for e in (".esp", ".esm", ".esl"):
        if f.endswith(e):
            want = [f]
    S.cover("plugin" if want else "no-plugin")
    if folder:
        S.cover("folder")
    S.check(S.same(bool(SubPackage.is_plugin(g)), bool(want)), "is_plugin is wrong")
    got = [p.name for p in k.plugins()]
    S.check(S.same(got, want + ["z.esl"]), "wrong plugins of a sub-package")
    r = run_script(S, 'SelectSubPackage "p"\n', {}, subpackages=SubPackages([k]), sev=Sev(Severity.ALLOW), runner=True)
    S.check(r.error is None, "no error expected")
    S.check(S.same(sorted([p.name for p in r.state.plugins]), sorted(want + ["z.esl"])), "the sub-package brings other plugins")


def jobs(tier):
    q = tier == "quick"
    for op in OPS:
        for l in ("plugin", "subpackage", "copy"):
            for r in ("plugin", "subpackage", "text"):
                n = 2 if q and r != "subpackage" else 1 if q else 3 if r == "plugin" else 2
                yield f"order {l} {op} {r}", "order", {"op": op, "left": l, "right": r, "maxlen": n}
        yield f"order text {op} plugin", "order", {"op": op, "left": "text", "right": "plugin", "maxlen": 2}
        for k in ("plugin", "subpackage"):
            yield f"itself {k} {op}", "itself", {"op": op, "kind": k, "maxlen": 2}
        yield f"foreign {op}", "foreign", {"op": op}
    for l, r in (("plugin", "plugin"), ("subpackage", "plugin"), ("subpackage", "subpackage"), ("plugin", "text")):
        yield f"long {l} {r}", "long_names", {"left": l, "right": r}
    yield "names", "names", {"maxlen": 3 if q else 5}
    yield "sets uni", "sets", {"dom": "uni", "maxlen": 1, "minlen": 0}
    yield "sets ascii", "sets", {"dom": "ascii", "maxlen": 2, "minlen": 1}
    if not q:
        yield "sets uni 2", "sets", {"dom": "uni", "maxlen": 2, "minlen": 2}
    for n in range(0, 7 if q else 9):
        for folder in ("", "d/", "d.esp/e/"):
            if n == 0 and folder:
                continue
            yield f"plugins {n} {folder}", "plugins", {"length": n, "folder": folder}
