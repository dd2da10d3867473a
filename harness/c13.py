"""C13 rewinding: contexts do not change, executing one again gives the same."""

from harness import prog
from harness.common import (
    Pkg,
    Sev,
    Severity,
    SubPackages,
    Value,
    Void,
    WizardError,
    WizardRunnerState,
    WizardTerminationContext,
    WizardTopLevelContext,
    make_factory,
)
from harness.prog import WRAPS
from wizard.contexts import WizardSelectManyContext, WizardSelectOneContext

BOUNDS = {
    "quick": "programs with every nest of up to 2 blocks (loops of 2 turns; If conditions arbitrary booleans) around every state-changing statement (assignments, "
    "selections, notes, renames, INI edits, Exec, expressions with side effects, failing statements, Cancel, Return); the run is repeated from every step of "
    "the first run; the variables have symbolic integer and string values; programs of two dialogs with every pair of answers (or none, for the defaults), rewound to each dialog; a dialog inside a Case, a branch or a loop that decides how this block is left",
    "thorough": "as quick with 3 turns, and nests of 3 blocks out of For-range, While, If and Case without Break",
}
ASSUMPTIONS = ["functions added by the application are deterministic", "the state is compared through its public properties"]
OPTIONS = {"max_steps": 5000000}
COVERS = {"all": ["rewound", "error", "complete", "return", "cancel", "dialog", "other-answer"]}

STMTS = {
    "assign": "x = x + i\nt = t + s\n",
    "compound": "x += j\nt += s\n",
    "inc": "x++\n--y\n",
    "select": 'SelectSubPackage "P"\n',
    "selectall": "SelectAll\nDeSelectPlugin s\n",
    "deselect": 'SelectAll\nDeSelectSubPackage "q"\n',
    "deall": "SelectAll\nDeSelectAll\nSelectAllPlugins\n",
    "plugins": 'SelectSubPackage "Q"\nDeSelectAllPlugins\nSelectPlugin "a.esp"\n',
    "note": "Note s\n",
    "rename": 'RenamePlugin "a.esp", s\nRenamePlugin s, "b.esp"\n',
    "reset": 'RenamePlugin "a.esp", s\nResetPluginName "A.esp"\n',
    "resetall": 'RenamePlugin "a.esp", s\nResetAllPluginNames\n',
    "ini": 'EditINI("f", "s", s, x)\nDisableINILine("f", s, "k")\n',
    "exec": 'Exec("x++\\nNote s\\nt += s")\n',
    "effects": "y = x++ + f(x++)\nNote g(x++)\n",
    "name": "y = x++\nz += 1\n",
    "type": "y = x++ - s\n",
    "cancel": "If x == i\nCancel s\nEndIf\n",
    "return": "If x == i\nReturn\nEndIf\n",
}


def world():
    return SubPackages([Pkg("P", ["a.esp", "c.txt"]), Pkg("Q", ["b.esp", "A.esp"])])


def snap(ctx):
    st = ctx.state
    vs = dict(st.variables)
    if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
        dialog = [ctx.description] + [(o.name, o.description, o.image) for o in ctx.options]
        dialog += [o.name for o in (ctx.defaults if isinstance(ctx, WizardSelectManyContext) else [ctx.default])]
    else:
        dialog = []
    return [
        dialog,
        {k: v.value for k, v in vs.items()},
        [p.name for p in st.subpackages],
        [p.name for p in st.plugins],
        [(k.name, v) for k, v in st.renames.items()],
        list(st.notes),
        [(t.filename, t.section, t.setting) for t in st.tweaks.disabled],
        [(t.filename, t.section, t.setting, t.value) for t in st.tweaks.modified],
    ]


def same(S, a, b):
    return S.all(*[S.same(x, y) for x, y in zip(a, b)])


def trace(S, ctx, pick):
    """(contexts, error) from ctx to the end"""
    out = [ctx]
    n = 0
    while not isinstance(ctx, WizardTerminationContext):
        n += 1
        if n > 400:
            S.fail("does not terminate")
        if pick is not None:
            ctx = pick(ctx)
        try:
            ctx = ctx.exec()
        except WizardError as e:
            return out, e
        out.append(ctx)
    return out, None


def start(S, script, env, functions=None):
    sev = Sev(Severity.ALLOW)
    factory = make_factory(world(), functions, sev, True)
    state = WizardRunnerState()
    for k, v in env.items():
        state.set(k, Value(v))
    return WizardTopLevelContext(factory, S.parse(script), None, state)


def same_end(S, a, b, what):
    (ca, ea), (cb, eb) = a, b
    S.check(len(ca) == len(cb), f"{what}: another number of steps")
    S.check((ea is None) == (eb is None), f"{what}: another outcome")
    if ea is not None:
        S.check(type(ea) is type(eb), f"{what}: another error")
        S.check(ea.line == eb.line and ea.column == eb.column, f"{what}: another error position")
    elif len(ca) > 0:
        x, y = ca[-1], cb[-1]
        S.check(x.is_cancel() == y.is_cancel() and x.is_return() == y.is_return(), f"{what}: another termination")
        S.check(S.same(x.message(), y.message()), f"{what}: another message")
    for x, y in zip(ca, cb):
        S.check(type(x) is type(y), f"{what}: another kind of step")
        S.check(same(S, snap(x), snap(y)), f"{what}: another state")


def rewind(S, kinds, stmt, turns):
    script = prog.text(prog.spine(kinds, [("stmt", STMTS[stmt])], turns))
    x, s = S.int("x"), S.str("s", 1, "ascii", minlen=1)
    asked = {}

    def ask(st, vs):
        tag = vs[0].value
        if tag not in asked:
            asked[tag] = S.bool(f"a{tag}")
        return Value(asked[tag])

    def f(st, vs):
        return Value(vs[0].value * 2)

    def g(st, vs):
        return Value("g")

    def log(st, vs):
        return Value(Void())

    first = start(S, script, {"x": x, "s": s, "t": "", "i": 0, "j": 0, "y": 0}, {"ask": ask, "f": f, "g": g, "log": log})
    run = trace(S, first, None)
    snaps = [snap(c) for c in run[0]]
    ctxs, err = run
    S.cover("error" if err is not None else "cancel" if ctxs[-1].is_cancel() else "return" if ctxs[-1].is_return() else "complete")
    for n in range(len(ctxs) - 1, -1, -1):
        if n == len(ctxs) - 1 and err is None:
            continue
        S.cover("rewound")
        again = trace(S, ctxs[n], None)
        same_end(S, (ctxs[n:], err), again, f"executed again from step {n} of {stmt} in {kinds}")
    for c, old in zip(ctxs, snaps):
        S.check(same(S, snap(c), old), f"a context changed after it was executed ({stmt} in {kinds})")


def is_dialog(ctx):
    return isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext))


def picker(answers, at, reuse=False):
    """answer dialog number `at` and the following ones (None, or no more answers: the defaults)"""
    n = [at]

    def pick(ctx):
        if is_dialog(ctx):
            want = answers[n[0]] if n[0] < len(answers) else None
            n[0] += 1
            if want is None:
                return ctx
            o = [o for o in ctx.options if o.name in want]
            if not isinstance(ctx, WizardSelectManyContext):
                return ctx.select(o[0])
            answered = ctx.select(o)
            if reuse:
                # the list is the application's, which may go on using it
                o[:] = [ctx.options[-1]]
            return answered
        return ctx

    return pick


def reanswer(S, script, one, every, last):
    """run with the answers `one`, then again from one of the dialogs with another answer to it"""
    x, s = S.int("x"), S.str("s", 1, "ascii", minlen=1)
    env = {"x": x, "s": s, "t": "", "i": 0, "j": 0, "y": 0, "b": 0, "w": 0}
    fns = {"f": lambda st, vs: Value(vs[0].value * 2), "g": lambda st, vs: Value("g")}
    run = trace(S, start(S, script, env, fns), picker(one, 0))
    snaps = [snap(c) for c in run[0]]
    S.cover("dialog")
    asks = [i for i, c in enumerate(run[0]) if is_dialog(c)]
    at = S.choice("at", list(range(last)))
    if at >= len(asks):
        return
    other = S.choice("r", every[min(at, len(every) - 1)])
    S.cover("other-answer")
    two = list(one) + [None] * (at + 1 - len(one))
    two[at] = other
    again = trace(S, run[0][asks[at]], picker(two, at, True))
    fresh = trace(S, start(S, script, env, fns), picker(two, 0))
    same_end(S, (fresh[0][asks[at]:], fresh[1]), again, "another answer after a rewind")
    for c, old in zip(run[0], snaps):
        S.check(same(S, snap(c), old), "a context changed after it was executed")


def dialogs(S, many, loop, stmt):
    """two dialogs; rewound to either, with another answer, it is as if it had been given at once"""
    names = ["A", "B", "C"]
    kw = "SelectMany" if many else "SelectOne"
    opts = ", \\\n".join(f'"{b}{n}", "t", ""' for b, n in zip(["", "|", ""], names))
    sel = f'{kw} "d", \\\n{opts}\nCase "A"\nx += 1\n{STMTS[stmt]}Break\nCase "B"\nx = x * 2\nDefault\nNote "no"\nEndSelect\n'
    if loop == "two":
        script = sel + "y = x\n" + sel
    else:
        script = "For i from 1 to 2\n" + sel + "y = x\nEndFor\n"
    every = [["A"], ["B"], ["C"], None] + ([["A", "B"], []] if many else [])
    one = [S.choice("p", every), S.choice("q", [["A"], ["B"], None])]
    reanswer(S, script, one, [every], 2)


INNER = 'SelectOne "e", \\\n"1", "", "", \\\n"|2", "", "", \\\n"3", "", ""\nCase "1"\nb = 1\nBreak\nCase "2"\nb = 2\nBreak\nDefault\nb = 3\nEndSelect\n'
LEAVE = {
    "case": "Break",
    "many": "Break",
    "if": "Return",
    "else": "Return",
    "for": "Break",
    "for continue": "Continue",
    "for in": "Break",
    "while": "Break",
    "while continue": "Continue",
    "exec": "Return",
}


def inside(S, outer, stmt):
    """a dialog inside a block decides how the block is left"""
    body = f'{INNER}{STMTS[stmt]}Note "m"\nIf b == 1\n{LEAVE[outer]}\nEndIf\nx += 3\n'
    answers = [["1"], ["2"], ["3"], None]
    if outer in ("case", "many"):
        kw = "SelectOne" if outer == "case" else "SelectMany"
        opts = ", \\\n".join(f'"{n}", "t", ""' for n in ("A", "|B", "C"))
        script = f'{kw} "d", \\\n{opts}\nCase "A"\n{body}Case "B"\nx = x * 2\nNote "B"\nBreak\nCase "C"\n{body}Default\nNote "no"\nEndSelect\ny = x\n'
        every = [["A"], ["C"], None] + ([["A", "B"], ["A", "C"], []] if outer == "many" else [])
        one = [S.choice("p", every), S.choice("q", answers)]
        if outer == "many":
            one.append(S.choice("q2", answers[:2]))
        reanswer(S, script, one, [every, answers], len(one))
        return
    head, tail = {
        "if": ("If x > 5\n", 'Else\nNote "else"\nEndIf\n'),
        "else": ("If x > 5\ny = 1\nElif x > 4\ny = 2\nElse\n", "EndIf\n"),
        "for": ("For k from 1 to 2\n", "EndFor\n"),
        "for continue": ("For k from 1 to 2\n", "EndFor\n"),
        "for in": ("For k in SubPackages\n", "EndFor\n"),
        "while": ("While w < 2\nw += 1\n", "EndWhile\n"),
        "while continue": ("While w < 2\nw += 1\n", "EndWhile\n"),
        "exec": ('Exec("x += 5")\nz = 1\nIf z\n', "EndIf\n"),
    }[outer]
    reanswer(S, f"{head}{body}{tail}y = x\n", [S.choice("p", answers), S.choice("q", answers)], [answers], 2)


def nest(S, first, stmt, turns, rest, wraps):
    kinds = ([first] if first else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    rewind(S, kinds, stmt, turns)


def jobs(tier):
    q = tier == "quick"
    some = ("for", "while", "if", "fall")
    for stmt in STMTS:
        yield f"{stmt} alone", "nest", {"first": None, "stmt": stmt, "turns": 2, "rest": 0, "wraps": WRAPS}
        yield f"{stmt} in one", "nest", {"first": None, "stmt": stmt, "turns": 2 if q else 3, "rest": 1, "wraps": WRAPS}
        for w in ("while", "fall") if q else WRAPS:
            yield f"{stmt} in {w}", "nest", {"first": w, "stmt": stmt, "turns": 2, "rest": 1, "wraps": some if q else WRAPS}
        for outer in LEAVE:
            if q and stmt not in ("note", "effects") or stmt in ("cancel", "return"):
                continue
            yield f"inside {outer} {stmt}", "inside", {"outer": outer, "stmt": stmt}
        for many in (False, True):
            if many and q and stmt not in ("note", "select", "effects", "return", "rename"):
                continue
            for loop in ("two", "loop"):
                yield f"dialog {stmt} {many} {loop}", "dialogs", {"many": many, "loop": loop, "stmt": stmt}
