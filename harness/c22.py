"""C22 effects of expressions happen once, in order, wherever they stand."""

from harness import prog
from harness.common import ALL_KINDS, Pkg, Sev, Severity, SubPackages, Value, Void, run_script, sym_value
from harness.prog import Stop, WRAPS
from wizard.contexts import WizardRequireVersionsContext, WizardSelectManyContext, WizardSelectOneContext

BOUNDS = {
    "quick": "about 90 places at which expressions are evaluated (operators, indexing, slices, calls, assignments, conditions, loop headers, dialogs, case labels, keywords, Exec, Cancel), every operand "
    "at once an application function that logs the value of a variable and changes it by an arbitrary integer; alone, in every block (loops of 2 turns), and in every block in a For loop; the same with "
    "increments of the script in place of the functions; contexts looked at any number of times; every binary operator with operands of every two types",
    "thorough": "as quick in nests of 2 blocks of every kind",
}
ASSUMPTIONS = ["functions of the application may change the variables of the state they are given (the documented contract of functions)", "operands are evaluated from left to right, also those of `and` and `or`"]
COVERS = {"all": ["effects", "cancel", "not-evaluated", "loop-condition", "operands"]}
OPTIONS = {"max_steps": 5000000}

# places: every «» is an operand; its type is the letter in it
PLACES = {
    "set": "y = «i»",
    "expr": "«i»",
    "compound": "y += «i»",
    "compound -": "y -= «i»",
    "compound *": "y *= «i»",
    "compound /": "y /= «j»",
    "compound ^": "y ^= «k»",
    "compound own": "x += «i»",
    "compound own -": "x -= «i» * «i»",
    "add": "y = «i» + «i»",
    "sub": "y = «i» - «i» - «i»",
    "mul": "y = «i» * «i»",
    "div": "y = «i» / «j»",
    "mod": "y = «i» % «j»",
    "pow": "y = «i» ^ «k»",
    "neg": "y = -«i»",
    "not": "y = not «b»",
    "eq": "y = «i» == «i»",
    "ne": "y = «s» != «i»",
    "lt": "y = «i» < «i»",
    "le": "y = «s» <= «s»",
    "gt": "y = «i» > «i»",
    "ge": "y = «i» >= «i»",
    "eq:": "y = «s» ==: «s»",
    "ne:": "y = «s» !=: «s»",
    "lt:": "y = «s» <: «s»",
    "le:": "y = «s» <=: «s»",
    "gt:": "y = «s» >: «s»",
    "ge:": "y = «s» >=: «s»",
    "and": "y = «b» and «b»",
    "or": "y = «b» or «b»",
    "and2": "y = «i» & «s»",
    "or2": "y = «s» | «i»",
    "in": "y = «s» in SubPackages",
    "in:": "y = «s» in: SubPackages",
    "in sub": "y = «s» in «P»",
    "in: sub": "y = «s» in: «P»",
    "index": "y = «s»[«z»]",
    "list": "y = SubPackages[«z»]",
    "slice": "y = «s»[«z»:«k»:«k»]",
    "slice from": "y = «s»[«z»:]",
    "slice to": "y = «s»[:«k»]",
    "slice step": "y = «s»[::«k»]",
    "call": "y = find(«s», «s», «z», «k»)",
    "call str": "y = str(«b») + lower(«s»)",
    "own": "y = pair(«i», pair(«i», «i»))",
    "method": "y = «s».find(«s», «z»)",
    "chain": "y = «s».lower().find(«s»)",
    "parens": "y = (((«i»)))",
    "mixed": "y = («i» + «i» * «i») - («i» - «i»)",
    "if": "If «b»\n  log(1)\nEndIf",
    "elif": "If False\nElif «b»\n  log(1)\nElse\n  log(2)\nEndIf",
    "for": "For v from «z» to «k» by «k»\n  log(3)\nEndFor",
    "for 2": "For v from «k» to «z»\n  log(3)\nEndFor",
    "for in": "For v in «P»\n  log(4)\nEndFor",
    "exec": "Exec(«x»)",
    "exec 2": "Exec(«x» + «x»)",
    "ini 4": "EditINI(«s», «s», «s», «i»)",
    "ini 5": "EditINI(«s», «s», «s», «i», «s»)",
    "disable": "DisableINILine(«s», «s», «s»)",
    "note": "Note «s»",
    "note add": "Note «s» + «s»",
    "select": "SelectPlugin «s»",
    "select sub": "SelectSubPackage «s»",
    "deselect": "DeSelectPlugin «s»",
    "deselect sub": "DeSelectSubPackage «s»",
    "espm": "SelectEspm «s»",
    "rename": "RenamePlugin «s», «s»",
    "reset": "ResetPluginName «s»",
    "require 1": "RequireVersions «s»",
    "require 4": "RequireVersions «s», «s», «s», «s»",
    "one": 'SelectOne «s», «a», «s», «s», \\\n«c», «s», «s»\nCase "a"\nlog(5)\nBreak\nEndSelect',
    "many": 'SelectMany «s», «a», «s», «s», \\\n«c», «s», «s»\nCase "a"\nlog(5)\nBreak\nEndSelect',
    "case": 'SelectOne "d", "a", "", "", "|c", "", ""\nCase «a»\nlog(6)\nBreak\nCase «c»\nlog(7)\nBreak\nEndSelect',
    "case many": 'SelectMany "d", "|a", "", "", "|c", "", ""\nCase «a»\nlog(6)\nBreak\nCase «c»\nlog(7)\nBreak\nEndSelect',
    "cases default": 'SelectOne "d", "e", "", "", "f", "", ""\nCase «a»\nlog(6)\nBreak\nCase «c»\nlog(7)\nDefault\nlog(8)\nEndSelect',
    "cancel": "Cancel «s»",
}
# the operands that are not evaluated, by their number
NEVER = {
    "elif taken": ("If True\n  log(1)\nElif «b»\n  log(2)\nEndIf", [0]),
    "elif second": ("If not «b»\nElif «b»\n  log(2)\nElif «b»\nElse\n  log(3)\nEndIf", [2]),
    "dead if": ("If False\n  y = «i»\n  Note «s»\nEndIf", [0, 1]),
    "dead else": ("If True\nElse\n  y = «i»\nEndIf", [0]),
    "dead while": ("While False\n  y = «i»\nEndWhile", [0]),
    "dead for": ("For v from 1 to 0\n  y = «i»\nEndFor", [0]),
    "broken": ("For v from 0 to 3\n  Break\n  y = «i»\nEndFor", [0]),
    "continued": ("For v from 0 to 1\n  Continue\n  y = «i»\nEndFor", [0]),
    "case taken": ('SelectOne "d", "a", "", "", "c", "", ""\nCase «a»\nlog(6)\nBreak\nCase «c»\nlog(7)\nBreak\nEndSelect', [1]),
    "dead case": ('SelectOne "d", "a", "", "", "c", "", ""\nCase "c"\nNote «s»\nBreak\nEndSelect', [0]),
    "dead exec": ('If False\nExec(«x»)\nEndIf', [0]),
    "returned": ("If False\nReturn\nEndIf\nFor v from 0 to 0\nBreak\nCancel «s»\nEndFor", [0]),
}


def parts(place):
    """the place as a list of texts and types of operands"""
    out, rest = [], place
    while "«" in rest:
        a, rest = rest.split("«", 1)
        t, rest = rest.split("»", 1)
        out += [a, t]
    return out, rest


def scripted(t):
    """an operand with an effect of the script itself"""
    s = "abc"
    return {
        "i": "x++", "j": "(1 + 0 * x++)", "k": "(1 + 0 * x++)", "z": "(0 * x++)", "b": "(x++ == x)",
        "s": f'"{s}"[0 * x++ : ]', "a": '"a"[0 * x++]', "c": '"c"[0 * x++]', "x": '"log(9)\\n"[0 * x++ : ]', "P": "SubPackages[0 * x++]",
    }[t]


def statement(place, how):
    """(text, number of operands, types)"""
    ps, rest = parts(place)
    text, types = "", []
    for a, t in zip(ps[::2], ps[1::2]):
        text += a + (scripted(t) if how == "script" else f"t{t}({len(types)})")
        types.append(t)
    return text + rest, types


class Ref(prog.Ref):
    def stmt(self, st):
        if st[0] == "log":
            self.log.append(("log", st[1], self.env["x"]))
        else:
            prog.Ref.stmt(self, st)


def run(S, outer, place, how, never, turns=2):
    stmt, types = statement(place, how)
    order = [n for n in range(len(types)) if n not in never]
    world = SubPackages([Pkg("P", ["a.esp"])])
    x0 = S.int("x0")
    ds = [S.int(f"e{n}") for n in range(len(types))]
    log = []

    def operand(t, n):
        return {"i": lambda: 5 + n, "j": lambda: 2, "k": lambda: 1, "z": lambda: 0, "b": lambda: True, "s": lambda: "abc", "a": lambda: "a", "c": lambda: "c",
                "x": lambda: "log(9)\n", "P": lambda: world[0]}[t]()

    def effect(t):
        def call(st, vs):
            n = vs[0].value
            x = st.variables["x"].value
            log.append(("t", n, x))
            st.set("x", Value(x + ds[n]))
            return Value(operand(t, n))

        return call

    fns = {f"t{t}": effect(t) for t in set(types)}
    d = prog.Decisions(S)
    ask = d.reader(log)
    fns["ask"] = lambda st, vs: Value(ask(vs[0].value))

    def f_log(st, vs):
        if len(vs) == 1:
            return Value(Void())  # inside the statement
        log.append(("log", vs[0].value, st.variables["x"].value))
        return Value(Void())

    fns["log"] = f_log
    fns["pair"] = lambda st, vs: Value(vs[0].value + vs[1].value)

    def do(S_, ref):
        for n in order:
            if how == "script":
                ref.env["x"] = ref.env["x"] + 1
            else:
                ref.log.append(("t", n, ref.env["x"]))
                ref.env["x"] = ref.env["x"] + ds[n]
        if place.startswith("Cancel"):
            raise Stop("cancel")
        # the changed variable is itself the target: it is read after its operand
        if place.startswith("x +="):
            ref.env["x"] = ref.env["x"] + (ref.env["x"] if how == "script" else operand("i", 0))
        if place.startswith("x -="):
            ref.env["x"] = ref.env["x"] - ((ref.env["x"] - 1) * ref.env["x"] if how == "script" else operand("i", 0) * operand("i", 1))

    p = prog.spine(outer, [("stmt", stmt, do), ("log", 98)], turns)
    env = {"i": 0, "j": 0, "x": x0, "y": 1}

    def pick(ctx):
        # looking at a context has no effect
        for k in range(2):
            if isinstance(ctx, WizardRequireVersionsContext):
                ctx.game_version, ctx.script_extender_version, ctx.graphics_extender_version, ctx.wrye_bash_version
            if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
                [(o.name, o.description, o.image) for o in ctx.options], ctx.description
                ctx.defaults if isinstance(ctx, WizardSelectManyContext) else ctx.default
        return ctx

    r = run_script(S, prog.text(p), env, functions=fns, subpackages=world, sev=Sev(Severity.ALLOW), runner=True, pick=pick)
    ref = Ref(S, env, None, 300)
    ref.ask = d.reader(ref.log)
    how_, _ = ref.run(p)
    S.cover("cancel" if how_ == "cancel" else "effects")
    if never:
        S.cover("not-evaluated")
    S.check(r.error is None, "unexpected error")
    S.check(len(log) == len(ref.log), "an expression was not evaluated once")
    S.check(S.same(log, ref.log), "effects in another order, or lost")
    S.check(S.same(r.var("x").value, ref.env["x"]), "an effect was lost or happened twice")


def place(S, first, rest, name, how, wraps=WRAPS, turns=2):
    outer = ([first] if first else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    p, never = NEVER[name] if name in NEVER else (PLACES[name], [])
    run(S, outer, p, how, never, turns)


def condition(S, turns, how):
    """the condition of a While is evaluated before every turn and once more"""
    x0, d = S.int("x"), S.int("d")
    log = []

    def f(st, vs):
        x = st.variables["x"].value
        log.append(x)
        st.set("x", Value(x + d))
        return Value(vs[0].value)

    S.cover("loop-condition")
    body = {"plain": "", "continue": "Continue\n", "if": "If 1\nContinue\nEndIf\n"}[how]
    r = run_script(S, f"n = 0\nWhile f(n < {turns})\nn++\n{body}EndWhile\n", {"x": x0}, functions={"f": f})
    S.check(r.error is None, "unexpected error")
    S.check(S.same(log, [x0 + d * k for k in range(turns + 1)]), "the condition must be evaluated before every turn")
    S.check(S.same(r.var("x").value, x0 + d * (turns + 1)) and r.var("n").value == turns, "an effect was lost")


OPS = ("+", "-", "*", "/", "%", "^", "==", "!=", "<", "<=", ">", ">=", "==:", "!=:", "<:", "<=:", ">:", ">=:", "and", "or", "&", "|", "in", "in:")


def operands(S, op, left, wrap):
    """both operands are evaluated once and in order, whatever they are, even when the operator does not take them"""
    right = S.choice("right", ALL_KINDS)
    a, b = sym_value(S, "a", left, 1), sym_value(S, "b", right, 1)
    if op in "*/%^":  # what they compute is C02's
        a, b = (2 if left == "int" else 2.0 if left == "float" else a), (3 if right == "int" else 3.0 if right == "float" else b)
    x0, d = S.int("x"), S.int("d")
    log = []

    def f(st, vs):
        n = vs[0].value
        log.append((n, st.variables["x"].value))
        st.set("x", Value(st.variables["x"].value + d + n))
        return Value(b if n else a)

    S.cover("operands")
    e = f"f(0) {op} f(1)"
    text = {"set": f"y = {e}", "if": f"If {e}\nEndIf", "not": f"y = not ({e})", "while": f"While {e}\nBreak\nEndWhile"}[wrap]
    try:
        run_script(S, text + "\n", {"x": x0}, functions={"f": f})
    except ArithmeticError:
        pass  # division by zero
    S.check(len(log) == 2, "both operands must be evaluated once")
    S.check(S.same(log, [(0, x0), (1, x0 + d)]), "operands in another order")


def jobs(tier):
    q = tier == "quick"
    for op in OPS:
        for left in ALL_KINDS:
            for wrap in ("set", "if") if q else ("set", "if", "not", "while"):
                yield f"operands {op} {left} {wrap}", "operands", {"op": op, "left": left, "wrap": wrap}
    for name in list(PLACES) + list(NEVER):
        for how in ("functions", "script"):
            yield f"{name} {how} alone", "place", {"first": None, "rest": 0, "name": name, "how": how}
            yield f"{name} {how} in", "place", {"first": None, "rest": 1, "name": name, "how": how}
            if q:
                if how == "functions":
                    yield f"{name} {how} in for", "place", {"first": "for", "rest": 1, "name": name, "how": how}
            else:
                for w in WRAPS:
                    yield f"{name} {how} in {w}", "place", {"first": w, "rest": 1, "name": name, "how": how}
    for how in ("plain", "continue", "if"):
        for turns in range(4):
            yield f"condition {how} {turns}", "condition", {"turns": turns, "how": how}
