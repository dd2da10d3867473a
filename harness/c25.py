"""C25 keywords reach the keyword visitor of the application."""

from harness import prog
from harness.common import (
    Sev,
    Severity,
    SubPackages,
    Value,
    WizardError,
    WizardTypeError,
    make_factory,
    run_script,
)
from harness.prog import WRAPS
from wizard.contexts import WizardRequireVersionsContext
from wizard.keywords import WizardKeywordVisitor

BOUNDS = {
    "quick": "every keyword under every name, with 0..6 arguments, all arguments arbitrary texts of up to 2 characters over the mixed alphabet (or integers and booleans for Note), in the middle of a script and in every "
    "block (loops of 2 turns), with a visitor that changes the state by an arbitrary value, or fails; RequireVersions with every number of arguments; two keywords in a row",
    "thorough": "as quick in every nest of 2 blocks, and with texts of up to 4 characters",
}
ASSUMPTIONS = ["the visitor is given by the application; it changes nothing but the state it is given"]
COVERS = {"all": ["called", "few", "many", "missing-version", "empty-version", "visitor-fails", "plain-visitor"]}

# name -> method, number of arguments
KEYWORDS = {
    "DeSelectAll": ("visitDeSelectAll", 0, 0),
    "DeSelectAllPlugins": ("visitDeSelectAllPlugins", 0, 0),
    "DeSelectAllEspms": ("visitDeSelectAllPlugins", 0, 0),
    "DeSelectPlugin": ("visitDeSelectPlugin", 1, 1),
    "DeSelectEspm": ("visitDeSelectPlugin", 1, 1),
    "DeSelectSubPackage": ("visitDeSelectSubPackage", 1, 1),
    "Note": ("visitNote", 1, 1),
    "RenamePlugin": ("visitRenamePlugin", 2, 2),
    "RenameEspm": ("visitRenamePlugin", 2, 2),
    "RequireVersions": ("visitRequireVersions", 1, 4),
    "ResetAllPluginNames": ("visitResetAllPluginNames", 0, 0),
    "ResetAllEspmNames": ("visitResetAllPluginNames", 0, 0),
    "ResetPluginName": ("visitResetPluginName", 1, 1),
    "ResetEspmName": ("visitResetPluginName", 1, 1),
    "SelectAll": ("visitSelectAll", 0, 0),
    "SelectAllPlugins": ("visitSelectAllPlugins", 0, 0),
    "SelectAllEspms": ("visitSelectAllPlugins", 0, 0),
    "SelectPlugin": ("visitSelectPlugin", 1, 1),
    "SelectEspm": ("visitSelectPlugin", 1, 1),
    "SelectSubPackage": ("visitSelectSubPackage", 1, 1),
}
METHODS = sorted({m for m, _, _ in KEYWORDS.values()})


class Boom(Exception):
    pass


def visitor(on):
    class Visitor(WizardKeywordVisitor):
        pass

    def method(name):
        if name == "visitRequireVersions":

            def call(self, state, game_version, script_extender_version, graphics_extender_version, wrye_bash_version):
                on(name, None, state, [game_version, script_extender_version, graphics_extender_version, wrye_bash_version])

        else:

            def call(self, context, state, *args):
                on(name, context, state, list(args))

        return call

    for n in METHODS:
        setattr(Visitor, n, method(n))
    return Visitor(Sev())


def call_text(name, args):
    return name + (" " + ", ".join(args) if args else "")


def one(S, outer, name, n, maxlen, fails=False):
    method, lo, hi = KEYWORDS[name]
    args = {f"a{i}": S.str(f"a{i}", maxlen if i == 0 else 1, "uni") for i in range(n)}
    x, d = S.int("x"), S.int("e")
    calls, contexts = [], []
    seen = []  # versions the contexts of RequireVersions show

    def on(m, context, state, got):
        calls.append((m, got, state.variables["x"].value))
        contexts.append(context)
        state.set("x", Value(state.variables["x"].value + d))
        if fails:
            raise Boom("x")

    want_args = list(args.values())
    if name == "RequireVersions":
        S.cover("missing-version")
        for k in range(1, n):
            if len(want_args[k]) == 0:
                S.cover("empty-version")
                want_args[k] = None
        want_args += [None] * (4 - n)
    log = []

    def do(S_, ref):
        if not lo <= n <= hi:
            raise prog.Stop("error")
        ref.log.append((method, want_args, ref.env["x"]))
        if fails:
            raise prog.Stop("boom")
        ref.env["x"] = ref.env["x"] + d

    stmt = call_text(name, list(args))
    p = prog.spine(outer, [("stmt", stmt, do), ("stmt", "y = x + y", lambda S_, ref: ref.env.update(y=ref.env["x"] + ref.env["y"]))])
    env = dict(args, i=0, j=0, x=x, y=0)
    dec = prog.Decisions(S)
    asked, ref_asked = [], []
    ask = dec.reader(asked)
    fns = {"log": lambda st, vs: Value(None), "ask": lambda st, vs: Value(ask(vs[0].value))}

    def pick(ctx):
        if isinstance(ctx, WizardRequireVersionsContext):
            seen.append([ctx.game_version, ctx.script_extender_version, ctx.graphics_extender_version, ctx.wrye_bash_version])
        return ctx

    r = run_script(S, prog.text(p), env, functions=fns, kvisitor=visitor(on), sev=Sev(Severity.ERROR), catch=(WizardError, Boom), pick=pick)
    class Ref(prog.Ref):
        def stmt(self, st):
            if st[0] != "log":
                prog.Ref.stmt(self, st)

    ref = Ref(S, env, None, 300)
    ref.ask = dec.reader(ref_asked)
    how, _ = ref.run(p)
    what = stmt
    S.check(len(calls) == len(ref.log), f"{what}: the visitor must be called once for every execution")
    S.check(S.same([c[0] for c in calls], [c[0] for c in ref.log]), f"{what}: another method was called")
    S.check(S.same([c[1] for c in calls], [c[1] for c in ref.log]), f"{what}: other arguments")
    S.check(S.same([c[2] for c in calls], [c[2] for c in ref.log]), f"{what}: another state was given")
    if name == "RequireVersions" and lo <= n <= hi:
        S.check(len(seen) == len(ref.log) and S.same(seen, [c[1] for c in ref.log]), f"{what}: the context shows other versions")
    for c in contexts:
        if c is not None:
            S.check(c.context.Keyword().getText() == name, f"{what}: another context")
    if how == "boom":
        S.cover("visitor-fails")
        S.check(isinstance(r.error, Boom), f"{what}: the error of the visitor must be given")
        S.check(S.same(r.vars(), ref.env), f"{what}: a failed keyword changes nothing")
    elif how == "error":
        S.cover("few" if n < lo else "many")
        S.check(isinstance(r.error, WizardTypeError), f"{what}: a wrong number of arguments is a type error")
        S.check(S.same(r.vars(), ref.env), f"{what}: a failed keyword changes nothing")
    else:
        if ref.log:
            S.cover("called")
        S.check(r.error is None and r.ctx.is_complete(), f"{what}: must complete")
        S.check(S.same(r.vars(), ref.env), f"{what}: wrong variables")


def grid(S, first, rest, name, n, maxlen, fails=False):
    outer = ([first] if first else []) + [S.choice(f"w{d}", WRAPS) for d in range(rest)]
    one(S, outer, name, n, maxlen, fails)


def two(S, name):
    """two keywords in a row, the second under any name"""
    other = S.choice("other", list(KEYWORDS))
    calls = []
    x = S.int("x")

    def on(m, context, state, got):
        calls.append((m, got, state.variables["x"].value))
        state.set("x", Value(state.variables["x"].value * 2))

    env = {"x": x}
    script, want = "", []
    for k, w in enumerate((name, other)):
        m, lo, hi = KEYWORDS[w]
        args = []
        for i in range(hi):
            args.append(f"a{k}{i}")
            env[args[-1]] = S.str(args[-1], 1, "ascii", minlen=1)
        script += call_text(w, args) + "\n"
        want.append((m, [env[a] for a in args], x * (k + 1)))
    r = run_script(S, script, env, kvisitor=visitor(on))
    S.check(r.error is None and r.ctx.is_complete(), "must complete")
    S.check(S.same(calls, want), "wrong calls")
    S.check(S.same(r.var("x").value, x * 4), "the change of the visitor is lost")


def plain(S, name):
    """the visitor of the library itself does nothing"""
    m, lo, hi = KEYWORDS[name]
    n = S.choice("n", range(lo, hi + 1))
    env = {f"a{i}": S.str(f"a{i}", 1, "uni") for i in range(n)}
    x = S.int("x")
    r = run_script(S, "x++\n" + call_text(name, list(env)) + "\nx = x + 1\n", dict(env, x=x))
    S.cover("plain-visitor")
    S.check(r.error is None and r.ctx.is_complete() and r.warnings == [], "must complete")
    S.check(S.same(r.vars(), dict(env, x=x + 2)), "nothing changes")


def jobs(tier):
    q = tier == "quick"
    for name, (_, lo, hi) in KEYWORDS.items():
        for n in range(7):
            if n == 0 and lo > 0:
                # a keyword without its arguments takes them from the next line
                continue
            yield f"{name} {n}", "grid", {"first": None, "rest": 0, "name": name, "n": n, "maxlen": 2 if q else 4}
            if lo <= n <= hi + 1:
                yield f"{name} {n} in", "grid", {"first": None, "rest": 1, "name": name, "n": n, "maxlen": 1}
                if not q:
                    for w in WRAPS:
                        yield f"{name} {n} in {w}", "grid", {"first": w, "rest": 1, "name": name, "n": n, "maxlen": 1}
        yield f"{name} fails", "grid", {"first": None, "rest": 1, "name": name, "n": hi, "maxlen": 1, "fails": True}
        yield f"{name} twice", "two", {"name": name}
        yield f"{name} plain", "plain", {"name": name}
