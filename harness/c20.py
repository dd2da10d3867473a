"""C20 Exec() is the text in its place."""

from harness import prog
from harness.common import ALL_KINDS, Value, WizardError, WizardNameError, WizardParseError, WizardTypeError, run_script, sym_value
from harness.prog import WRAPS

BOUNDS = {
    "quick": "Exec() of a literal, a variable or a concatenation, inside every nest of up to 2 blocks (loops of 2 turns, arbitrary conditions), of every block and leaf statement (assignment, "
    "Break, Continue, Return, Cancel, nothing, another Exec(), half of a nest of its own); arguments of every type and number; texts that do not parse; 19 texts with comments, strings, escapes, blank lines, line ends and errors, against the same text in place; texts of 200 statements, Exec() 6 deep, and 4 different texts by the same Exec()",
    "thorough": "as quick with 3 outer blocks out of For-range, While, If and Case without Break, 2 blocks inside, and loops of 3 turns",
}
ASSUMPTIONS = ["the executed texts are concrete; the values they work on are symbolic", "a text with a single superfluous token is repaired by the parser: outside the claim"]
COVERS = {"all": ["complete", "return", "cancel", "bad-break", "bad-continue", "type-error", "arity", "bad-text", "nested", "verbatim", "changing"]}
OPTIONS = {"max_steps": 5000000}

SOME = ("for", "while", "if", "fall")
LEAVES = {
    "set": [("set", "y", ("+", "x", "y")), ("inc", "x")],
    "break": [("if", [(("ask", 99), [("break",), ("log", 98)])], None)],
    "continue": [("if", [(("ask", 99), [("continue",), ("log", 98)])], None)],
    "return": [("inc", "x"), ("if", [(("ask", 99), [("return",), ("log", 98)])], None)],
    "cancel": [("inc", "x"), ("if", [(("ask", 99), [("cancel", "m"), ("log", 98)])], None)],
    "plain break": [("break",)],
    "nothing": [],
}


def place(S, outer, inner, leaf, how, nested, turns=2):
    body = prog.spine(inner, LEAVES[leaf], turns, 4) if inner else LEAVES[leaf]
    if nested:
        S.cover("nested")
        body = [("inc", "x"), ("exec", "literal", body), ("log", 97)]
    p = prog.spine(outer, [("exec", how, body)], turns)
    env = {"i": 0, "j": 0, "y": 0, "x": S.int("x"), "m": S.str("m", 1, "uni")}
    got, _, _ = prog.compare(S, p, env, what=f"Exec of {leaf} in {inner} in {outer}", fuel=300)
    S.cover(got)


def grid(S, first, rest, inner, leaf, how, nested, turns=2, wraps=WRAPS):
    outer = ([first] if first else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    place(S, outer, inner, leaf, how, nested, turns)


TEXTS = {
    "plain": "x++\nx = x * 3\n",
    "comments": "; x = 0\nx++ ; x = 1\n  ; last\nx = x * 3",
    "comment": "; only",
    "strings": "s = \"a;b\" + ';'\nx += len(s) ; len",
    "escapes": 's = "a\\\\nb\\n;\\"" + \'\\t\'\nx += len(s)',
    "blank": "\n\n  x++\n\n\n",
    "nothing": "",
    "spaces": "   ",
    "windows": "x++\r\n  x = x * 3\r\n",
    "continued": "x = x + \\\n  3\nSelectOne \"d\", \\\n \"a\", \"\", \"\"\nCase \"a\"\nx++\nEndSelect",
    "indented": "\tIf x > 0\n\t\tx++\n\tElse\n\t\tx--\n\tEndIf",
    "letters": 's = "é;\u0431" ; \u0431\nx += len(s)',
    "fails": "x++ ; one\nx += nothing ; fails",
    "fails late": "\n\n  x++\n\tx += nothing",
    "fails first": "\n \n\n    y = nothing + 1 \n\n",
    "fails windows": "\r\n; c\n\ty = x + 'a'\r\n",
    "fails indented": "   x += nothing\n",
    "fails inside": "\n  If x == x\n\n    y = x - 'a'\n  EndIf",
    "wrong": "x++\ny = x + 'a;'",
}


def verbatim(S, name):
    """the text is taken as it is: comments, strings, blank lines, a missing last line end"""
    x = S.int("x")
    t = TEXTS[name]
    S.cover("verbatim")
    want = run_script(S, "x = x + 1\n" + t + "\nx = x + 1\n", {"x": x, "s": ""})
    for how in (f"Exec({prog.quote(t)})", "Exec(t)"):
        r = run_script(S, "x = x + 1\n" + how + "\nx = x + 1\n", {"x": x, "s": "", "t": t}, subs=None)
        if want.error is not None:
            S.check(type(r.error) is type(want.error), "another error than in place")
            S.check(r.error.line == want.error.line - 1 and r.error.column == want.error.column, "the error is elsewhere in the text")
        else:
            S.check(r.error is None and r.ctx.is_complete(), "must complete")
        S.check(S.same(r.var("x").value, want.var("x").value) and S.same(r.var("s").value, want.var("s").value), "another result than in place")


def deep(S, depth, how):
    """Exec() in Exec() in Exec()..."""
    x, go = S.int("x"), S.bool("go")
    env = {"x": x, "go": go}
    t = "x = x * 2 + 1\nIf go\nBreak\nEndIf\nx++\n"
    for d in range(depth):
        if how == "variable":
            env[f"t{d}"] = t
        t = f"x++\nExec({prog.quote(t) if how == 'literal' else f't{d}'})\nx = x * 3\n"
    r = run_script(S, "While x == x\n" + t + "Break\nEndWhile\nx += 7\n", env)
    S.cover("nested")
    want = (x + depth) * 2 + 1
    S.check(r.error is None, "unexpected error")
    if not bool(go):
        want = (want + 1) * 3**depth
    S.check(S.same(r.var("x").value, want + 7), "wrong result of deep Exec()")


def long_text(S, n):
    x = S.int("x")
    t = "".join(f"x = x + {i % 7}\n; {i}\n" for i in range(n))
    r = run_script(S, "x++\nExec(" + prog.quote(t) + ")\nx++\n", {"x": x})
    S.check(r.error is None and S.same(r.var("x").value, x + 2 + sum(i % 7 for i in range(n))), "wrong result of a long text")
    S.cover("complete")


def changing(S, where):
    """the text is evaluated and parsed every time"""
    x, y = S.int("x"), S.int("y")
    ts = ["x = x * 3\n", "x = x + y\nIf x > y\nContinue\nEndIf\nx++", "y = x", "x = x * 3\n"]
    env = {"x": x, "y": y, **{f"t{i}": t for i, t in enumerate(ts)}}
    cond = [f"If i == {i}\nt = t{i}\nEndIf\n" for i in range(len(ts))]
    call = {"loop": "Exec(t)", "nested": 'Exec("Exec(t)\\n")', "sum": 'Exec(t + "; " + str(i))'}[where]
    r = run_script(S, f"For i from 0 to 3\n{''.join(cond)}{call}\nEndFor\n", env)
    S.cover("changing")
    S.check(r.error is None and r.ctx.is_complete(), "must complete")
    x1 = x * 3
    x2 = x1 + y
    x3 = S.ite(x2 > y, x2, x2 + 1)
    S.check(S.all(S.same(r.var("x").value, x3 * 3), S.same(r.var("y").value, x3)), "another text was executed")


def argument(S, kind):
    v = sym_value(S, "v", kind, 0) if kind != "str" else "x = x + 1\n"
    x = S.int("x")
    r = run_script(S, "x++\nExec(v)\nx++\n", {"v": v, "x": x})
    if kind == "str":
        S.check(r.error is None and S.same(r.var("x").value, x + 3), "wrong result")
        return
    S.cover("type-error")
    S.check(isinstance(r.error, WizardTypeError), "the argument must be a string")
    S.check(S.same(r.var("x").value, x + 1), "must stop at Exec")


def arity(S, n):
    x = S.int("x")
    r = run_script(S, "x++\nExec(" + ", ".join(['"x++"'] * n) + ")\nx++\n", {"x": x})
    if n == 1:
        S.check(r.error is None and S.same(r.var("x").value, x + 3), "wrong result")
        return
    S.cover("arity")
    S.check(isinstance(r.error, WizardTypeError), "Exec has one argument")
    S.check(S.same(r.var("x").value, x + 1), "must stop at Exec")


def misuse(S, script):
    x = S.int("x")
    r = run_script(S, f"x++\n{script}\nx++\n", {"x": x})
    S.check(isinstance(r.error, WizardNameError), "Exec is a statement of its own")
    S.check(S.same(r.var("x").value, x + 1), "must stop there")


BAD = ["If x", "x = ", "EndIf\nx = 1", "For", "SelectOne", "x = 1 +", "))"]


def bad(S, script):
    """a text that does not parse is an error at the Exec, or in the text, after the statements before it"""
    x = S.int("x")
    go = S.bool("go")
    r = run_script(S, f"x++\nIf go\nExec({prog.quote(script)})\nEndIf\nx++\n", {"x": x, "go": go})
    if bool(go):
        S.cover("bad-text")
        S.check(isinstance(r.error, WizardParseError), "must be a parse error")
        S.check(S.same(r.var("x").value, x + 1), "must stop at Exec")
    else:
        S.check(r.error is None and S.same(r.var("x").value, x + 2), "is not parsed before it is executed")


def jobs(tier):
    q = tier == "quick"
    for leaf in LEAVES:
        for how in ("literal", "sum", "variable"):
            for nested in (False, True):
                yield f"{leaf} {how} {nested}", "grid", {"first": None, "rest": 1, "inner": [], "leaf": leaf, "how": how, "nested": nested, "turns": 2 if q else 3}
                yield f"{leaf} {how} {nested} alone", "grid", {"first": None, "rest": 0, "inner": [], "leaf": leaf, "how": how, "nested": nested}
        for w in WRAPS:
            yield f"{leaf} in {w}", "grid", {"first": w, "rest": 1, "inner": [], "leaf": leaf, "how": "literal", "nested": False}
            yield f"{leaf} of {w}", "grid", {"first": None, "rest": 1, "inner": [w], "leaf": leaf, "how": "literal", "nested": False}
            if not q:
                yield f"{leaf} in {w} nested", "grid", {"first": w, "rest": 1, "inner": [], "leaf": leaf, "how": "sum", "nested": True}
                for w2 in SOME:
                    yield f"{leaf} of {w} in {w2}", "grid", {"first": None, "rest": 1, "inner": [w, w2], "leaf": leaf, "how": "literal", "nested": False, "wraps": SOME}
                    if w in SOME:
                        yield f"{leaf} of {w} {w2} in", "grid", {"first": w2, "rest": 1, "inner": [w], "leaf": leaf, "how": "literal", "nested": False, "wraps": SOME}
    for t in TEXTS:
        yield f"verbatim {t}", "verbatim", {"name": t}
    for w in ("loop", "nested", "sum"):
        yield f"changing {w}", "changing", {"where": w}
    for how in ("literal", "variable"):
        for d in (3, 6) if how == "variable" else (3, 4):
            yield f"deep {how} {d}", "deep", {"depth": d, "how": how}
    yield "long text", "long_text", {"n": 200}
    for k in ALL_KINDS:
        yield f"argument {k}", "argument", {"kind": k}
    for n in range(0, 4):
        yield f"arity {n}", "arity", {"n": n}
    for i, t in enumerate(['x = Exec("x++")', 'x = 1 + Exec("x++")', 'EndExec(1)', 'x = EndExec("1")', 'If Exec("x++")\nEndIf']):
        yield f"misuse {i}", "misuse", {"script": t}
    for i, t in enumerate(BAD):
        yield f"bad {i}", "bad", {"script": t}
