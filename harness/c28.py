"""C28 statements one after another mean what they mean alone, whatever the layout."""

from harness.common import Pkg, Sev, Severity, SubPackages, Value, WizardRunnerState, run_script

BOUNDS = {
    "quick": "every pair of 44 kinds of statements, one after the other, run from arbitrary integers and texts of up to 1 character in the variables, compared with the first statement run alone and then the second on its "
    "outcome; programs of all kinds of blocks in 9 layouts (comments, blank lines, indentation, spaces, line ends of Windows, no end of the last line, several options on a line); 7 kinds of errors at the end of such programs in 8 layouts",
    "thorough": "as quick with every pair in 5 layouts, and every triple of 12 kinds of statements",
}
ASSUMPTIONS = [
    "pairs in which the parser is known to take the second statement as a part of the first (a keyword or Cancel without arguments before an expression; an expression at the end of a line before ++, --, - or a parenthesis) are "
    "recorded findings, see DESIGN.md: some of each kind have jobs of their own, the others are outside the claim"
]
COVERS = {"all": ["both", "first-fails", "second-fails", "ends", "layout", "failing"]}
OPTIONS = {"max_steps": 5000000}

ST = {
    "set": "x = y",
    "set text": 't = "a" + s',
    "set call": "x = f(y)",
    "set index": "t = s[k]",
    "set slice": "t = s[1:]",
    "set parens": "x = (y)",
    "set inc": "x = y++",
    "compound": "x += y",
    "compound text": "t += s",
    "compound type": "x -= s",
    "inc": "x++",
    "dec": "y--",
    "preinc": "++x",
    "predec": "--x",
    "neg": "-x",
    "not": "!x",
    "parens": "(x++)",
    "call": "f(x)",
    "dot": "s.lower()",
    "name": "x",
    "unset": "z++",
    "text": '"abc"',
    "number": "12",
    "decimal": "1.5",
    "constant": "True",
    "index": "s[k]",
    "if": "If x\n y = 1\nElse\n y++\nEndIf",
    "while": "While x < 1 and k < 2\n k++\nEndWhile",
    "for": "For k from 0 to 1\n x += k\nEndFor",
    "for in": 'For k in s\n t += k\nEndFor',
    "one": 'SelectOne "d", "a", "", "", "|b", "", ""\nCase s\n x = 1\n Break\nCase "b"\n x = y\nDefault\n y++\nEndSelect',
    "many": 'SelectMany "d", "|a", "", "", "|b", "", ""\nCase s\n x = 1\n Break\nCase "b"\n x = y\n Break\nEndSelect',
    "note": "Note s",
    "note sum": "Note s + t",
    "select": "SelectPlugin s",
    "rename": 'RenamePlugin "a.esp", s',
    "all": "SelectAll",
    "none": "DeSelectAll",
    "plugins": "SelectAllPlugins",
    "no plugins": "DeSelectAllPlugins",
    "resets": "ResetAllPluginNames",
    "versions": "RequireVersions s",
    "exec": 'Exec("x++\\nNote s")',
    "ini": 'EditINI("f", s, "k", x)',
    "disable": 'DisableINILine("f", s, "k")',
    "in": "x = s in SubPackages",
    "in:": "x = s in: SubPackages",
    "ignoring case": 'x = s ==: "A"',
    "return": "Return",
    "cancel": "Cancel",
    "cancel message": "Cancel s",
}
# statements that end with an expression, or take one
TAKES_PARENS = {"set", "set text", "compound", "compound text", "compound type", "neg", "not", "name", "unset", "note", "note sum", "select", "rename", "all", "none", "plugins", "no plugins", "resets", "versions",
                "cancel", "cancel message", "ignoring case"}
NO_ARGS = {"all", "none", "plugins", "no plugins", "resets", "cancel"}
EXPRS = {"inc", "dec", "preinc", "predec", "neg", "not", "parens", "call", "dot", "name", "unset", "text", "number", "decimal", "constant", "index", "exec", "ini", "disable"}
ENDS_EXPR = {
    k for k in ST
    if k not in ("if", "while", "for", "for in", "one", "many", "return")
}


def taken(a, b):
    """the parser takes b as a part of a: recorded"""
    if a in NO_ARGS and b in EXPRS:
        return True
    if b == "neg" and a in ENDS_EXPR:
        return True
    if b in ("preinc", "predec", "parens") and a in ENDS_EXPR:
        return True
    return False


KNOWN = (
    [(a, b) for a in ("all", "none", "plugins", "no plugins", "resets", "cancel") for b in ("inc", "call", "exec", "ini")]
    + [(a, b) for a in ("set", "note") for b in ("preinc", "predec", "parens", "neg")]
    + [("name", "parens")]
)


def world():
    return SubPackages([Pkg("P", ["a.esp", "c.txt"]), Pkg("Q", ["b.esp"])])


def snap(st):
    vs = dict(st.variables)
    return [
        {k: v.value for k, v in vs.items()},
        [p.name for p in st.subpackages],
        [p.name for p in st.plugins],
        [(k.name, v) for k, v in st.renames.items()],
        list(st.notes),
        [(t.filename, t.section, t.setting) for t in st.tweaks.disabled],
        [(t.filename, t.section, t.setting, t.value) for t in st.tweaks.modified],
    ]


def same(S, a, b):
    return S.all(*[S.same(x, y) for x, y in zip(a, b)])


def start(S):
    st = WizardRunnerState()
    for k, v in {"x": S.int("x"), "y": S.int("y"), "k": 0, "s": S.str("s", 1), "t": "u"}.items():
        st.set(k, Value(v))
    return st


def go(S, text, st):
    log = []

    def f(state, vs):
        log.append(vs[0].value)
        return Value(vs[0].value * 2)

    sev = Sev(Severity.WARNING)
    r = run_script(S, text, subpackages=world(), functions={"f": f}, sev=sev, runner=True, state=st)
    return r, log


def sequence(S, names, sep="\n", end="\n"):
    texts = [ST[n] for n in names]
    st = start(S)
    want, logs, lines, warnings = st, [], 0, 0
    last = None
    for n, t in enumerate(texts):
        last, log = go(S, t + "\n", want.copy())
        logs += log
        warnings += len(last.warnings)
        if last.error is not None:
            S.cover("second-fails" if n else "first-fails")
            break
        want = last.state
        if not last.ctx.is_complete():
            S.cover("ends")
            break
        lines += (t + sep).count("\n")
    else:
        S.cover("both")
    got, log = go(S, sep.join(texts) + end, st.copy())
    what = " / ".join(names)
    S.check((got.error is None) == (last.error is None), f"{what}: another outcome")
    S.check(S.same(log, logs), f"{what}: other calls")
    S.check(len(got.warnings) == warnings, f"{what}: other warnings")
    if last.error is not None:
        S.check(type(got.error) is type(last.error), f"{what}: another error")
        S.check(got.error.line == last.error.line + lines and got.error.column == last.error.column, f"{what}: another error position")
        return
    a, b = got.ctx, last.ctx
    S.check(a.is_cancel() == b.is_cancel() and a.is_return() == b.is_return(), f"{what}: another end")
    S.check(S.same(a.message(), b.message()), f"{what}: another message")
    S.check(same(S, snap(got.state), snap(want)), f"{what}: another state")


def after(S, first, sep="\n"):
    second = S.choice("b", [b for b in ST if not taken(first, b)])
    sequence(S, [first, second], sep)


def known(S, first, second):
    sequence(S, [first, second])


def three(S, first, kinds):
    bs = [b for b in kinds if not taken(first, b)]
    b = S.choice("b", bs)
    c = S.choice("c", [c for c in kinds if not taken(b, c)])
    sequence(S, [first, b, c])


PROGRAM = {
    "if": "If x < y\ny = 1\nElif x == y\ny = 2\nElse\ny = 3\nEndIf\nNote str(y)",
    "loops": "For k from 0 to 2\nIf k == x\nContinue\nEndIf\nWhile y < 1 and t != \"uuu\"\nt += \"u\"\nIf x > y\nBreak\nEndIf\nEndWhile\nEndFor",
    "one": 'SelectOne "d", \\\n"a", "A", "i.png", \\\n"|b", "B", ""\nCase s\nx = 1\nBreak\nCase "b"\nx = y\nDefault\ny++\nEndSelect',
    "many": 'SelectMany "d", \\\n"|a", "A", "i.png", \\\n"|b", "B", ""\nCase s\nx = 1\nBreak\nCase "b"\nx = y\nBreak\nDefault\ny++\nEndSelect',
    "selection": 'SelectAll\nx = 1\nDeSelectPlugin "a.esp"\nRenamePlugin "b.esp", s\nNote s\nReturn',
    "sub": 'For k in SubPackages\nFor f in k\nIf f == s\nNote f\nEndIf\nEndFor\nEndFor\nCancel s',
    "effects": 'x++\ny = x\nt = s[0 : y - x] + "a;b"\nEditINI("f", s, "k", x)\nExec("x++\\n")\ny += x',
}


def layout(S, name, how):
    lines = PROGRAM[name].split("\n")
    plain = "\n".join(lines) + "\n"

    def each(f):
        # a continued line cannot have a comment
        return "\n".join(f(x) for x in lines) + "\n"

    text = {
        "comments": "; head\n" + each(lambda x: x if x.endswith("\\") else x + " ; If EndIf \"quoted\" (") ,
        "comment lines": each(lambda x: x if x.endswith("\\") else x + "\n; Break\n;;\n;"),
        "blank": "\n\n" + each(lambda x: x if x.endswith("\\") else x + "\n\n") + "\n",
        "indent": each(lambda x: "    " + x),
        "tabs": each(lambda x: "\t \t" + x),
        "spaces": each(lambda x: x if x.endswith("\\") else x + " \t "),
        "windows": plain.replace("\n", "\r\n"),
        "no end": "\n".join(lines),
        "one line": plain.replace("\\\n", ""),
    }[how]
    S.cover("layout")
    st = start(S)
    (a, la), (b, lb) = go(S, plain, st.copy()), go(S, text, st.copy())
    S.check(a.error is None and b.error is None, "unexpected error")
    S.check(S.same(la, lb) and len(a.warnings) == len(b.warnings), f"{how}: other calls or warnings")
    S.check(a.ctx.is_cancel() == b.ctx.is_cancel() and a.ctx.is_return() == b.ctx.is_return(), f"{how}: another end")
    S.check(S.same(a.ctx.message(), b.ctx.message()), f"{how}: another message")
    S.check(same(S, snap(a.state), snap(b.state)), f"{how}: another state")


FAIL = {
    "type": "x = x - s",
    "name": "nothing++",
    "function": "x = nothing(y)",
    "keyword": "Note",
    "index": "t = s[7]",
    "block": "If x == x\n  y = x - s\nEndIf",
    "cancel": "Cancel x",
}
FAIL_LINES = {"block": (1, 6)}


def failing(S, name, how, before):
    """the position of an error is that in the text as it is written"""
    head = PROGRAM[before].split("\n") if before else []
    lines = FAIL[name].split("\n")
    tail = ["x = 5"]
    plain = head + lines + tail
    sep, out, at = "\n", [], None
    for n, l in enumerate(plain):
        cont = l.endswith("\\")
        if how == "blank":
            out += [] if n and plain[n - 1].endswith("\\") else ["", " \t"]
        if how == "comment lines":
            out += [] if n and plain[n - 1].endswith("\\") else ["; Break", ";;"]
        if n == len(head):
            at = len(out)
        out.append(("   " if how == "indent" else "\t" if how == "tabs" else "") + l + (" ; x (" if how == "comments" and not cont else "  \t" if how == "spaces" and not cont else ""))
    if how == "windows":
        sep = "\r\n"
    S.cover("failing")
    st = start(S)
    S.assume(len(st.variables["s"].value) == 1)
    (a, la), (b, lb) = go(S, "\n".join(plain) + "\n", st.copy()), go(S, sep.join(out) + sep, st.copy())
    if a.error is None:
        S.check(b.error is None, f"{how}: another outcome")
        return
    S.check(type(b.error) is type(a.error), f"{how}: another error")
    # the head itself does not fail, but may end the script
    shift = {"indent": 3, "tabs": 1}.get(how, 0)
    # the block with blank or comment lines has them inside, too
    inner = a.error.line - len(head) - 1
    line = at + 1 + (inner * 3 if how in ("blank", "comment lines") else inner)
    S.check(b.error.line == line and b.error.column == a.error.column + shift, f"{how}: another error position")
    S.check(a.error.line - len(head) == 1 + FAIL_LINES.get(name, (0,))[0], "wrong line of the error")


def jobs(tier):
    q = tier == "quick"
    for a in ST:
        yield f"after {a}", "after", {"first": a}
        if not q:
            for n, sep in enumerate(("\n\n", "\r\n", "\n; comment\n", "  \n\t \n\t", "\n;;\n")):
                yield f"after {a} {n}", "after", {"first": a, "sep": sep}
    if not q:
        kinds = ["set", "inc", "compound", "call", "if", "for", "one", "note", "all", "exec", "ini", "index"]
        for a in kinds:
            yield f"three {a}", "three", {"first": a, "kinds": kinds}
    for a, b in KNOWN:
        yield f"known {a} / {b}", "known", {"first": a, "second": b}
    for p in PROGRAM:
        for how in ("comments", "comment lines", "blank", "indent", "tabs", "spaces", "windows", "no end", "one line"):
            yield f"layout {p} {how}", "layout", {"name": p, "how": how}
    for f in FAIL:
        for how in ("plain", "comments", "comment lines", "blank", "indent", "tabs", "spaces", "windows"):
            for before in (None, "if", "one", "loops") if q else (None, *PROGRAM):
                yield f"failing {f} {how} {before}", "failing", {"name": f, "how": how, "before": before}
