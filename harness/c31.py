"""C31 the functions an application adds to the language."""

from harness import prog
from harness.common import (
    ALL_KINDS,
    BASIC,
    Pkg,
    Sev,
    SubPackages,
    Value,
    Void,
    WizardError,
    WizardExpressionVisitor,
    WizardInterpreterContextFactory,
    WizardKeywordVisitor,
    WizardNameError,
    WizardRunnerExpressionVisitor,
    WizardRunnerKeywordVisitor,
    WizardRunnerState,
    WizardTerminationContext,
    WizardTopLevelContext,
    WizardTypeError,
    kind_of,
    make_basic_functions,
    sym_value,
)
from harness.prog import WRAPS
from wizard.functions import optional, wrap_function
from wizard.state import WizardInterpreterState

BOUNDS = {
    "quick": "functions given as entries of the dictionary, as methods of a visitor, under the names of built-in functions and as methods of each of the 7 types, with 0..3 arguments of any type, "
    "arbitrary contents (texts of up to 2 characters) and any result; called alone, nested, several times in a loop and in every block; every identifier of up to 20 characters as name of a function, in an expression or as a statement; "
    "wrap_function with every list of up to 2 types out of 6, required or optional, plain, with variable arguments or raw, and 0..3 arguments of 5 types (of 3 types with more than 3 types and arguments together), up to one too few or too many; functions of 9 arguments, and wrap_function of 4 types with 7 arguments, one of them of any type",
    "thorough": "as quick with 0..5 arguments in calls, in nests of 2 blocks, and up to 3 types and 4 arguments for wrap_function, and identifiers of up to 30 characters",
}
ASSUMPTIONS = [
    "wrap_function is given at least one type with varargs, and no required argument after an optional one",
    "a wrapped method without rawargs returns a value of a type of the language or nothing, one with rawargs a Value or nothing",
    "the reserved words of the grammar are no identifiers",
]
COVERS = {"all": ["dictionary", "visitor", "override", "dot", "no-dot", "name", "no-name", "internal", "wrapped", "few", "many", "bad-type", "void", "twice", "again"]}

PKG = Pkg("P", ["a.esp"])
PKGS = SubPackages([PKG])


def content(S, name, k):
    if k == "subpackage":
        return PKG
    if k == "subpackages":
        return PKGS
    if k == "void":
        return Void()
    return sym_value(S, name, k, 2, "uni")


def same(S, a, b, k):
    """the content of a value of kind k"""
    if k == "void":
        return isinstance(a, Void)
    return S.same(a, b) if k in BASIC else a is b


def start(S, script, visitor, functions, env=None, runner=False, subs=None):
    sev = Sev()
    fns = make_basic_functions()
    fns.update(functions)
    ev = visitor(PKGS, fns, sev)
    kv = WizardRunnerKeywordVisitor(PKGS, sev) if runner else WizardKeywordVisitor(sev)
    state = WizardRunnerState() if runner else WizardInterpreterState()
    for k, v in (env or {}).items():
        state.set(k, Value(v))
    return WizardTopLevelContext(WizardInterpreterContextFactory(ev, kv, sev), S.parse(script, subs), None, state)


def finish(ctx):
    try:
        while not isinstance(ctx, WizardTerminationContext):
            ctx = ctx.exec()
    except WizardError as e:
        return ctx, e
    return ctx, None


HOWS = ("dictionary", "visitor", "both", "override", "override both")


def make(how, log, value, nothing=False):
    """(name, visitor class, functions): a function that logs its call"""
    name = "len" if how.startswith("override") else "own"

    class Visitor(WizardExpressionVisitor):
        pass

    def method(self, state, *args):
        log.append(("visitor", state, args))
        state.set("mark", Value(len(log)))
        return None if nothing else value()

    def function(state, args):
        log.append(("dictionary", state, args))
        state.set("mark", Value(len(log)))
        return Value(Void()) if nothing else Value(value())

    if how in ("visitor", "both", "override both"):
        setattr(Visitor, "visit" + name, method)
    return name, Visitor, {} if how == "visitor" else {name: function}


def call(S, how, n, most):
    """one call: arguments, state and result are handed on as they are"""
    kinds = [S.choice(f"k{i}", ALL_KINDS if i == 0 else ("int", "str", "void")) for i in range(n)]
    args = [content(S, f"a{i}", k) for i, k in enumerate(kinds)]
    rk = S.choice("result kind", ALL_KINDS)
    res = content(S, "res", rk)
    x = S.int("x")
    log = []
    name, visitor, functions = make(how, log, lambda: res, nothing=S.choice("nothing", [False, True]) if rk == "void" else False)
    env = {f"a{i}": a for i, a in enumerate(args)}
    ctx = start(S, f"x++\nres = {name}({', '.join(env)})\nx++\n", visitor, functions, {**env, "x": x})
    end, err = finish(ctx)
    S.cover("visitor" if how == "visitor" else "override" if how.startswith("override") else "dictionary")
    S.check(err is None, "unexpected error")
    S.check(len(log) == 1, "the function must be called once")
    where, state, got = log[0]
    S.check(where == ("visitor" if how == "visitor" else "dictionary"), "the dictionary comes before the methods of the visitor")
    S.check(len(got) == n, "another number of arguments")
    for g, a, k in zip(got, args, kinds):
        if where == "dictionary":
            S.check(isinstance(g, Value), "functions are given values")
            g = g.value
        S.check(kind_of(g) == k if k not in BASIC else True, "the type of an argument changed")
        S.check(same(S, g, a, k), "an argument changed")
    S.check(S.same(state.variables["x"].value, x + 1), "the function must be given the current state")
    S.check("mark" in end.state.variables and end.state.variables["mark"].value == 1, "what the function changes in the state must stay")
    r = end.state.variables["res"]
    if rk == "void":
        S.cover("void")
    S.check(r.is_void() if rk == "void" else not r.is_void(), "another type of result")
    S.check(same(S, r.value, res, rk), "another result")
    S.check(S.same(end.state.variables["x"].value, x + 2), "the rest of the script is another")


def many(S, how, n):
    """many arguments, in their order"""
    args = [S.int(f"a{i}") if i % 2 else S.str(f"a{i}", 9, "uni", minlen=9) for i in range(n)]
    log = []
    res = S.int("res")
    name, visitor, functions = make(how, log, lambda: res)
    env = {f"a{i}": a for i, a in enumerate(args)}
    end, err = finish(start(S, f"res = {name}({', '.join(env)})\n", visitor, functions, env))
    S.check(err is None and len(log) == 1, "the function must be called once")
    where, state, got = log[0]
    S.check(S.same([g.value if where == "dictionary" else g for g in got], args), "other arguments")
    S.check(S.same(end.state.variables["res"].value, res), "another result")


def wrapped_many(S, var, at):
    """wrap_function of 3 required types and an optional one, with 7 arguments (4 without varargs)"""
    n = 7 if var else 4
    types = ["str", "int", "str"] + ["int"] * (n - 3)
    args = [S.int(f"a{i}") if t == "int" else S.str(f"a{i}", 2, "uni") for i, t in enumerate(types)]
    if at is not None:
        k = S.choice("kind", ALL_KINDS)
        args[at] = content(S, "bad", k)
    calls = []
    fn = wrap_function("own", lambda *a: calls.append(a), str, int, str, optional(int), varargs=var)
    env = {f"a{i}": a for i, a in enumerate(args)}
    end, err = finish(start(S, f"res = own({', '.join(env)})\n", WizardExpressionVisitor, {"own": fn}, env))
    if at is not None and k not in OF[types[at]]:
        S.cover("bad-type")
        S.check(isinstance(err, WizardTypeError) and calls == [], "wrong arguments are a type error")
        return
    S.cover("wrapped")
    S.check(err is None and len(calls) == 1 and S.same(list(calls[0]), args), "other arguments")


def nested(S, how, first, rest, turns=2):
    """f(1 + f(x)) in any block: each call once, inner first, in the state of the moment"""
    outer = ([first] if first else []) + [S.choice(f"w{d}", WRAPS) for d in range(rest)]
    a, x0 = S.int("a"), S.int("x")
    calls, log = [], []

    class Visitor(WizardExpressionVisitor):
        def visitown(self, state, v, w=0):
            return value(state, v, w)

    def value(state, v, w):
        calls.append((v, w, state.variables["x"].value))
        return v * 2 + w

    functions = {} if how == "visitor" else {"own": lambda st, vs: Value(value(st, vs[0].value, vs[1].value if len(vs) > 1 else 0))}
    want = []

    def stmt(S_, ref):
        x = ref.env["x"]
        want.append((x, 0, x))
        v = 1 + 2 * x
        want.append((v, a, x))
        ref.env["x"] = 2 * v + a

    p = prog.spine(outer, [("inc", "x"), ("stmt", "x = own(1 + own(x), a)", stmt), ("log", 98)], turns)
    env = {"i": 0, "j": 0, "x": x0, "a": a}
    d = prog.Decisions(S)
    ask = d.reader(log)
    functions["ask"] = lambda st, vs: Value(ask(vs[0].value))
    functions["log"] = lambda st, vs: (log.append(tuple(v.value for v in vs)), Value(Void()))[1]
    end, err = finish(start(S, prog.text(p), Visitor, functions, env))
    ref = prog.Ref(S, env, None, 300)
    ref.ask = d.reader(ref.log)
    ref.run(p)
    if len(want) > 2:
        S.cover("twice")
    S.check(err is None, "unexpected error")
    S.check(S.same(calls, want), "other calls")
    S.check(S.same(log, ref.log), "other statements")
    S.check(S.same(end.state.variables["x"].value, ref.env["x"]), "another result")


TAGS = {"bool": "bool", "int": "integer", "float": "float", "str": "string", "void": "void", "subpackage": "SubPackage", "subpackages": "SubPackage[]"}


def dot(S, kind, defined, n):
    """v.own(...) is the function `type.own` for the type of v"""
    args = [content(S, f"a{i}", kind if i == 0 else "int") for i in range(n + 1)]
    res = S.int("res")
    log = []

    def f(tag):
        def g(st, vs):
            log.append((tag, st, vs))
            return Value(res)

        return g

    functions = {f"{t}.own": f(t) for k, t in TAGS.items() if (k == kind) == defined}
    functions["own"] = f("plain")
    env = {f"a{i}": a for i, a in enumerate(args)}

    class Visitor(WizardExpressionVisitor):
        def visitown(self, state, *args):
            log.append(("visitor", state, args))
            return res

    ctx = start(S, f"res = a0.own({', '.join(list(env)[1:])})\n", Visitor, functions, env)
    end, err = finish(ctx)
    if not defined:
        S.cover("no-dot")
        S.check(isinstance(err, WizardNameError), "a missing method is a name error")
        S.check(err.name == f"{TAGS[kind]}.own", "the error must name the method")
        S.check(log == [], "no other function must be called")
        return
    S.cover("dot")
    S.check(err is None, "unexpected error")
    S.check([l[0] for l in log] == [TAGS[kind]], "another function was called")
    got = log[0][2]
    S.check(len(got) == n + 1, "another number of arguments")
    S.check(S.all(*[same(S, g.value, a, kind if i == 0 else "int") for i, (g, a) in enumerate(zip(got, args))]), "other arguments")
    S.check(S.same(end.state.variables["res"].value, res), "another result")


def dot_again(S, first, second, how):
    """the method is looked up every time, by the type the object has then"""
    a, b = content(S, "a", first), content(S, "b", second)
    r0 = S.int("r0")
    log = []

    def f(tag):
        def g(st, vs):
            log.append((tag, vs[0].value))
            return Value(r0)

        return g

    functions = {f"{TAGS[k]}.own": f(k) for k in TAGS}
    functions["own"] = f("plain")
    text = {"loop": "For i from 0 to 1\nres = v.own()\nv = b\nEndFor\n", "while": "While n < 2\nn++\nres = v.own()\nv = b\nEndWhile\n", "plain": "res = v.own()\nv = b\nres = v.own()\n"}[how]
    end, err = finish(start(S, text, WizardExpressionVisitor, functions, {"v": a, "b": b, "n": 0}))
    S.cover("again")
    S.check(err is None, "unexpected error")
    S.check([t for t, _ in log] == [first, second], "another function was called")
    S.check(S.all(same(S, log[0][1], a, first), same(S, log[1][1], b, second)), "other arguments")


LETTERS = [(ord("A"), ord("Z")), (ord("_"), ord("_")), (ord("a"), ord("z"))]
RESERVED = ["True", "False", "SubPackages", "Cancel", "Case", "Default", "For", "from", "to", "by", "If", "SelectOne", "SelectMany", "While", "not", "or", "and", "in",
            "Break", "Continue", "Elif", "Else", "EndFor", "EndIf", "EndSelect", "EndWhile", "Return",
            "DeSelectAll", "DeSelectAllPlugins", "DeSelectAllEspms", "DeSelectPlugin", "DeSelectEspm", "DeSelectSubPackage", "Note", "RenamePlugin", "RenameEspm", "RequireVersions",
            "ResetAllPluginNames", "ResetAllEspmNames", "ResetPluginName", "ResetEspmName", "SelectAll", "SelectAllPlugins", "SelectAllEspms", "SelectPlugin", "SelectEspm", "SelectSubPackage"]


def names(S, n, visitor, args, form="res = "):
    """every identifier of n characters as the name of a function of one to three arguments"""
    name = S.str("name", n, "word", minlen=n)
    S.assume(S.any(*[S.all(name[0] >= chr(a), name[0] <= chr(b)) for a, b in LETTERS]))
    for w in RESERVED:
        if len(w) == n:
            S.assume(S.no(name == w))
    log = []

    class Plain(WizardExpressionVisitor):
        pass

    class Own(WizardExpressionVisitor):
        def visitOwn(self, state, *args):
            log.append("Own")
            return 7

        # the visitor may refine how expressions are evaluated
        def visitIndex(self, ctx, state):
            return super().visitIndex(ctx, state)

        def visitExpr(self, ctx, state, typ=None):
            return super().visitExpr(ctx, state, typ)

    class Runner(WizardRunnerExpressionVisitor):
        pass

    cls = {"plain": Plain, "own": Own, "runner": Runner}[visitor]
    methods = {"plain": [], "own": ["Own"], "runner": ["EditINI", "DisableINILine"]}[visitor]

    def f(st, vs):
        log.append("mine")
        return Value(7)

    functions = {"mine": f, "Index": f, "visit": f, "exec": f, "EXEC": f, "string.own": f, "integer.mine": f}
    known = [k for k in list(make_basic_functions()) + list(functions) if "." not in k] + methods
    if form == "" and n == 4:
        # Exec is a statement of the language
        S.assume(S.no(name == "Exec"))
    script = f"{form}zzz({', '.join(['x'] * args)})\n"
    end, err = finish(start(S, script, cls, functions, {"x": S.str("x", 2, "digits", minlen=1)}, visitor == "runner", subs={"zzz": name}))
    exists = S.any(*[name == k for k in known if len(k) == n])
    if exists:
        S.cover("name")
        S.check(not isinstance(err, WizardNameError), "the function exists")
        if S.any(*[name == k for k in functions if len(k) == n]):
            S.check(err is None and log == ["mine"], "the function must be called once")
        return
    internal = [m[5:] for m in dir(WizardExpressionVisitor) if m.startswith("visit") and len(m) == n + 5]
    S.cover("internal" if S.any(*[name == m for m in internal]) else "no-name")
    S.check(isinstance(err, WizardNameError), "calling a name that is no function is a name error")
    if not S.any(name == "Exec", name == "EndExec"):
        S.check(S.same(err.name, name), "the error must name the function")
    S.check(log == [], "no function must be called")


TYPES = {"str": str, "int": int, "float": float, "bool": bool, "object": object, "pkg": SubPackages}
OF = {"str": ("str",), "int": ("int", "bool"), "float": ("float",), "bool": ("bool",), "object": ALL_KINDS, "pkg": ("subpackages",)}


def wrapped(S, nt, no, n, mode, kinds, types):
    """wrap_function(name, method, nt required types and no optional ones), called with n arguments"""
    names_ = [S.choice(f"t{i}", types) for i in range(nt + no)]
    ks = [S.choice(f"k{i}", kinds) for i in range(n)]
    args = [content(S, f"a{i}", k) for i, k in enumerate(ks)]
    raw = "raw" in mode
    var = "var" in mode
    rk = S.choice("result kind", ("int", "none", "str"))
    res = None if rk == "none" else content(S, "res", rk)
    calls = []

    def method(*a):
        calls.append(a)
        return res if not raw or rk == "none" else Value(res)

    fn = wrap_function("own", method, *[TYPES[t] if i < nt else optional(TYPES[t]) for i, t in enumerate(names_)], varargs=var, rawargs=raw)
    env = {f"a{i}": a for i, a in enumerate(args)}
    end, err = finish(start(S, f"res = own({', '.join(env)})\n", WizardExpressionVisitor, {"own": fn}, env))
    few, many = n < nt, n > nt + no and not var
    types = names_ + names_[-1:] * (n - len(names_))
    bad = any(k not in OF[t] for k, t in zip(ks, types))
    if few or many or bad:
        S.cover("few" if few else "many" if many else "bad-type")
        S.check(isinstance(err, WizardTypeError), "wrong arguments are a type error")
        S.check(calls == [], "the method must not be called with wrong arguments")
        return
    S.cover("wrapped")
    S.check(err is None, "unexpected error")
    S.check(len(calls) == 1 and len(calls[0]) == n, "the method must be called once with all arguments")
    for g, a, k in zip(calls[0], args, ks):
        if raw:
            S.check(isinstance(g, Value), "raw arguments are values")
            g = g.value
        S.check(same(S, g, a, k), "an argument changed")
    v = end.state.variables["res"]
    S.check(isinstance(v, Value), "the result must be a value")
    if rk == "none":
        S.cover("void")
        S.check(v.is_void(), "a method that returns nothing has no value")
    else:
        S.check(S.same(v.value, res), "another result")


def jobs(tier):
    q = tier == "quick"
    for a in TAGS:
        for b in TAGS:
            for how in ("loop", "while", "plain"):
                yield f"dot again {a} {b} {how}", "dot_again", {"first": a, "second": b, "how": how}
    for how in HOWS:
        for n in range(4 if q else 6):
            yield f"call {how} {n}", "call", {"how": how, "n": n, "most": 3}
        yield f"many {how}", "many", {"how": how, "n": 9}
    for var in (True, False):
        for at in [None] + list(range(7 if var else 4)):
            yield f"wrap many {var} {at}", "wrapped_many", {"var": var, "at": at}
    for how in ("dictionary", "visitor"):
        yield f"nested {how} alone", "nested", {"how": how, "first": None, "rest": 0}
        yield f"nested {how}", "nested", {"how": how, "first": None, "rest": 1}
        for w in ("for",) if q else WRAPS:
            yield f"nested {how} in {w}", "nested", {"how": how, "first": w, "rest": 1}
    for kind in ALL_KINDS:
        for defined in (True, False):
            for n in range(2 if q else 4):
                yield f"dot {kind} {defined} {n}", "dot", {"kind": kind, "defined": defined, "n": n}
    for visitor in ("plain", "own", "runner"):
        for n in range(1, 21 if q else 31):
            for args in (1,) if q else (0, 1, 2, 3):
                yield f"names {visitor} {n} {args}", "names", {"n": n, "visitor": visitor, "args": args}
                if args == 1 and visitor == "plain" or not q:
                    # called as a statement
                    yield f"statement {visitor} {n} {args}", "names", {"n": n, "visitor": visitor, "args": args, "form": ""}
    for mode in ("", "var", "raw", "raw var"):
        for nt in range(3 if q else 4):
            for no in range(3 - nt if q else 4 - nt):
                if "var" in mode and nt + no == 0:
                    continue
                for n in range(4 if q else 5):
                    wrong = n < nt or n > nt + no and "var" not in mode
                    if wrong and not (nt - 1 <= n <= nt + no + 1):
                        continue
                    big = n + nt + no > 3 or wrong
                    yield f"wrap {mode} {nt} {no} {n}", "wrapped", {
                        "nt": nt, "no": no, "n": n, "mode": mode,
                        "kinds": ("int", "str") if wrong else ("int", "str", "bool") if big and q or n > 3 else ("int", "str", "bool", "float", "subpackages"),
                        "types": ("str", "int", "object") if big and q or n > 3 else tuple(TYPES),
                    }
