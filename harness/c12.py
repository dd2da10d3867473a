"""C12 SelectOne and SelectMany."""

from harness import prog
from harness.common import Issue, Sev, Severity, WizardTypeError, run_script
from wizard.contexts import WizardSelectManyContext, WizardSelectOneContext

BOUNDS = {
    "quick": "1..3 options and 1..3 cases (together up to 5, SelectMany 4) with arbitrary names and labels of 0..2 characters out of `|ab` (0..1 when there "
    "are more than 3), every choice of the user (an option, any "
    "subset of the options in any of two orders, or the defaults), also out of the mixed alphabet (ASCII, Latin-1 letters, ſ, Cyrillic, ẞ, €, the Kelvin sign) with up to 2 options and cases; every combination of Break at the end of the cases, with and without Default; images of 0..2 "
    "characters over ASCII; SelectMany with up to 3 options; 0..2 cases with and without statements; 10 options and cases; up to 3 cases with equal labels; a Select in a loop with other options, labels and answers in the second turn",
    "thorough": "as quick with up to 4 options and 4 cases, together up to 6 (SelectMany 5), 0..2 characters up to 4, 0..3 cases with and without statements",
}
ASSUMPTIONS = ["what is selected is a list of the offered options (the documented contract of the user interface)"]
COVERS = {
    "all": ["matched", "default-case", "nothing", "fall", "fall-default", "image", "no-image", "first", "marked", "many-defaults", "two-defaults",
            "error", "warn", "allow", "many-two", "no-statements", "big", "same-label", "again"]
}


def bar(S, name):
    """(name without the mark, marked)"""
    if len(name) > 0 and name[0] == "|":
        return name[1:], True
    return name, False


def offers(S, many, n, chars):
    """what the user is offered"""
    names = [S.str(f"o{i}", 2 if n < 3 else 1, chars=chars) for i in range(n)]
    desc = S.str("d", 2, minlen=2)
    texts = [S.str(f"t{i}", 1, minlen=1) for i in range(n)]
    images = [S.str(f"im{i}", 2 if i == n - 1 else 0) for i in range(n)]
    env = {"d": desc}
    rows = []
    for i in range(n):
        env[f"o{i}"], env[f"t{i}"], env[f"im{i}"] = names[i], texts[i], images[i]
        rows.append(f"o{i}, t{i}, im{i}")
    script = ("SelectMany" if many else "SelectOne") + " d, \\\n " + ", \\\n ".join(rows) + '\n Case "x"\n y = 1\n Break\nEndSelect\n'
    seen = []

    def pick(ctx):
        if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
            seen.append(ctx)
        return ctx

    sev = Sev(Severity.ALLOW)
    r = run_script(S, script, env, pick=pick, sev=sev)
    S.check(r.error is None and r.ctx.is_complete(), "a Select must complete")
    S.check(len(seen) == 1, "the user must be asked once")
    c = seen[0]
    S.check(isinstance(c, WizardSelectManyContext if many else WizardSelectOneContext), "wrong kind of dialog")
    S.check(S.same(c.description, desc), "wrong description")
    S.check(len(c.options) == n, "wrong number of options")
    marked = []
    for i in range(n):
        want, mark = bar(S, names[i])
        if mark:
            marked.append(i)
        o = c.options[i]
        S.check(S.same(o.name, want), "wrong option name")
        S.check(S.same(o.description, texts[i]), "wrong option description")
        if len(images[i].strip()) == 0:
            S.cover("no-image")
            S.check(o.image is None, "a blank image is no image")
        else:
            S.cover("image")
            S.check(o.image is not None and S.same(o.image, images[i]), "wrong image")
    if many:
        if len(marked) > 1:
            S.cover("many-defaults")
        S.check(len(c.defaults) == len(marked), "wrong number of defaults")
        for o, i in zip(c.defaults, marked):
            S.check(o is c.options[i], "wrong defaults")
    else:
        S.cover("marked" if marked else "first")
        S.check(c.default is c.options[marked[0] if marked else 0], "wrong default")


def severity(S, n, level):
    """several defaults of a SelectOne"""
    names = [S.str(f"o{i}", 1, chars="|a") for i in range(n)]
    env = {f"o{i}": x for i, x in enumerate(names)}
    rows = ", \\\n ".join(f'o{i}, "t", ""' for i in range(n))
    sev = Sev(None)
    level = None if level is None else Severity[level]
    if level is not None:
        sev.set_severity(Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON, level)
    got = []

    def pick(ctx):
        if isinstance(ctx, WizardSelectOneContext):
            got.append(ctx.options.index(ctx.default))
        return ctx

    r = run_script(S, f'SelectOne "d", \\\n {rows}\n Case "x"\n Break\nEndSelect\n', env, sev=sev, pick=pick)
    marked = [i for i in range(n) if bar(S, names[i])[1]]
    if len(marked) > 1:
        S.cover("two-defaults")
        if level == Severity.ERROR:
            S.cover("error")
            S.check(isinstance(r.error, WizardTypeError), "several defaults must be an error")
            S.check(not r.warnings, "no warning besides the error")
            return
        if level == Severity.ALLOW:
            S.cover("allow")
            S.check(not r.warnings, "several defaults are allowed")
        else:
            S.cover("warn")
            S.check(len(r.warnings) == 1, "several defaults must be warned about once")
    else:
        S.check(not r.warnings, "unexpected warning")
    S.check(r.error is None, "unexpected error")
    S.check(len(got) == 1, "the user must be asked once")


def cases(S, many, nopt, ncase, chars, maxlen, domain=None):
    """which cases run for which choice"""
    names = [S.str(f"o{i}", maxlen, domain or "ascii", chars=None if domain else chars) for i in range(nopt)]
    labels = [S.str(f"c{i}", maxlen, domain or "ascii", chars=None if domain else chars) for i in range(ncase)]
    breaks = S.choice("breaks", list(range(2**ncase)) if domain is None else [0, 2**ncase - 1])
    has_default = S.choice("default", [False, True])
    env = {"i": 0, "j": 0}
    env.update({f"o{i}": x for i, x in enumerate(names)})
    env.update({f"c{i}": x for i, x in enumerate(labels)})
    opts = [(f"o{i}", ("str", "t"), ("str", "")) for i in range(nopt)]
    cs = []
    for i in range(ncase):
        body = [("log", i), ("set", "i", ("+", ("*", "i", 10), i + 1))]
        cs.append((f"c{i}", body + ([("break",)] if breaks >> i & 1 else [])))
    dflt = [("log", 100), ("set", "j", 1)] if has_default else None
    p = [("log", -1), ("select", many, ("str", "d"), opts, cs, dflt), ("log", -2)]
    if many:
        sub = S.choice("sub", [None] + [[i for i in range(nopt) if m >> i & 1] for m in range(2**nopt)] + ([[1, 0]] if nopt > 1 else []))
    else:
        sub = S.choice("sub", [None] + list(range(nopt)))

    def pick(ctx):
        if sub is not None:
            if isinstance(ctx, WizardSelectOneContext):
                return ctx.select(ctx.options[sub])
            if isinstance(ctx, WizardSelectManyContext):
                return ctx.select([ctx.options[i] for i in sub])
        return ctx

    def choose(many, options, defaults):
        if sub is None:
            return [options[d] for d in defaults]
        return [options[i] for i in sub] if many else [options[sub]]

    if many and sub is not None and len(sub) > 1:
        S.cover("many-two")
    how, ref, _ = prog.compare(S, p, env, choose, pick, what="Select")
    ran = [x[0] for x in ref.log if x[0] >= 0]
    if not ran:
        S.cover("nothing")
    elif ran == [100]:
        S.cover("default-case")
    elif 100 in ran:
        S.cover("fall-default")
    elif len(ran) > 1:
        S.cover("fall")
    else:
        S.cover("matched")


def big(S, many, n, mask):
    """many options and cases"""
    names = [f"Option {i}" for i in range(n)]
    labels = [names[(i * 3) % n] for i in range(n)]
    marked = [3, n - 1] if many else [n - 2]
    cs = [(("str", labels[i]), [("log", i), ("set", "i", ("+", ("*", "i", 3), i))] + ([("break",)] if mask >> (i % 4) & 1 else [])) for i in range(n)]
    opts = [(("str", ("|" if i in marked else "") + x), ("str", "t"), ("str", "")) for i, x in enumerate(names)]
    p = [("log", -1), ("select", many, ("str", "d"), opts, cs, [("log", 100)]), ("log", -2)]
    one = [[i] for i in range(n)]
    got = S.choice("got", one + [None] + ([[], [0, n - 1], [n - 1, 1, 4], list(range(n)), list(range(0, n, 2))] if many else []))

    def pick(ctx):
        if got is not None and isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
            return ctx.select(ctx.options[got[0]] if not many else [ctx.options[i] for i in got])
        return ctx

    S.cover("big")
    prog.compare(S, p, {"i": S.int("i"), "j": 0}, lambda many, options, defaults: [names[i] for i in (marked if got is None else got)], pick, what="Select with many options")


def empty(S, many, n, dflt):
    """cases without statements: matched and fallen through like the others"""
    names = "ABC"
    bodies = [S.choice(f"b{i}", ["full", "none", "break", "full break"]) for i in range(n)]
    opts = [(("str", x), ("str", "t"), ("str", "")) for x in names[: n + 1]]
    body = lambda i, b: ([("log", i), ("inc", "i")] if "full" in b else []) + ([("break",)] if "break" in b else [])
    cs = [(("str", names[i]), body(i, b)) for i, b in enumerate(bodies)]
    p = [("log", -1), ("select", many, ("str", "d"), opts, cs, None if dflt is None else body(100, dflt)), ("log", -2)]
    got = S.choice("got", [[i for i in range(n + 1) if m >> i & 1] for m in range(2 ** (n + 1)) if many or bin(m).count("1") == 1])

    def pick(ctx):
        if isinstance(ctx, WizardSelectOneContext):
            return ctx.select(ctx.options[got[0]])
        if isinstance(ctx, WizardSelectManyContext):
            return ctx.select([ctx.options[i] for i in got])
        return ctx

    S.cover("no-statements")
    prog.compare(S, p, {"i": S.int("i"), "j": 0}, lambda many, options, defaults: [names[i] for i in got], pick, what="Select with empty cases")


def repeated(S, many, labels, how):
    """cases with the same label, also written the same, are all cases of their own"""
    x = S.str("x", 1, chars="AB")
    breaks = S.choice("breaks", range(2 ** len(labels)))
    opts = [(("str", n), ("str", "t"), ("str", "")) for n in "ABC"]
    cs = []
    for i, l in enumerate(labels):
        label = "x" if l == "x" else (("+", ("str", ""), ("str", l)) if how == "mixed" and i % 2 else ("str", l))
        cs.append((label, [("log", i), ("set", "i", ("+", ("*", "i", 3), i + 1))] + ([("break",)] if breaks >> i & 1 else [])))
    p = [("log", -1), ("select", many, ("str", "d"), opts, cs, [("log", 100)] if S.choice("default", [False, True]) else None), ("log", -2)]
    got = S.choice("got", [[i for i in range(3) if m >> i & 1] for m in range(8) if many or bin(m).count("1") == 1])

    def pick(ctx):
        if isinstance(ctx, WizardSelectOneContext):
            return ctx.select(ctx.options[got[0]])
        if isinstance(ctx, WizardSelectManyContext):
            return ctx.select([ctx.options[i] for i in got])
        return ctx

    S.cover("same-label")
    prog.compare(S, p, {"i": S.int("i"), "j": 0, "x": x}, lambda many, options, defaults: ["ABC"[i] for i in got], pick, what="Select with equal labels")


def again(S, many, ncase):
    """a Select in a loop asks anew every turn, with the options, labels and answers of that turn"""
    a = [S.str(f"a{i}", 1, chars="|AB") for i in range(2)]
    c = [S.str(f"c{i}", 1, chars="AB") for i in range(2)]
    env = {"i": 0, "j": 0, "a": a[0], "aa": a[1], "c": c[0], "cc": c[1], "d": "d0"}
    opts = [("a", ("str", "t"), ("str", "")), (("str", "B"), ("str", "t"), ("str", ""))]
    cs = [("c", [("log", 1), ("break",)]), (("str", "B"), [("log", 2)] + ([("break",)] if S.choice("break", [False, True]) else []))][:ncase]
    picks = [S.choice(f"got{i}", [None] + ([[], [0], [1], [0, 1]] if many else [[0], [1]])) for i in range(2)]
    body = [("log", -2), ("select", many, "d", opts, cs, [("log", 100)]), ("set", "a", "aa"), ("set", "c", "cc"), ("set", "d", ("str", "d1"))]
    p = [("log", -1), ("for", "i", 0, 1, None, body), ("log", -3)]
    seen = []

    def pick(ctx):
        if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
            seen.append(ctx.description)
            got = picks[len(seen) - 1]
            if got is None:
                return ctx
            return ctx.select([ctx.options[i] for i in got]) if many else ctx.select(ctx.options[got[0]])
        return ctx

    turn = []

    def choose(many, options, defaults):
        turn.append(1)
        got = picks[len(turn) - 1]
        return [options[i] for i in (defaults if got is None else got)]

    S.cover("again")
    prog.compare(S, p, env, choose, pick, what="Select in a loop")
    S.check(seen == ["d0", "d1"], "wrong descriptions")


def nested(S, outer_many, inner_many, at):
    """a Select inside a case of another one: Break and fall through stay where they belong"""
    a, b = S.choice("a", ["A", "B", "C"]), S.choice("b", ["A", "B", "C"])
    ib, ob = S.choice("ib", range(4)), S.choice("ob", range(4))
    opts = [(("str", x), ("str", "t"), ("str", "")) for x in "ABC"]

    def sel(many, k, mask, inner):
        cs = []
        for n, x in enumerate("AB"):
            body = [("log", k + n)]
            if inner is not None and n == at:
                body += inner + [("log", k + 10 + n)]
            cs.append((("str", x), body + ([("break",)] if mask >> n & 1 else [])))
        d = [("log", k + 2)]
        if inner is not None and at == 2:
            d += inner + [("log", k + 12)]
        return [("select", many, ("str", "d%d" % k), opts, cs, d)]

    p = sel(outer_many, 20, ob, sel(inner_many, 50, ib, None)) + [("log", 99)]

    def pick(ctx):
        if isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext)):
            want = a if ctx.description == "d20" else b
            o = next(o for o in ctx.options if o.name == want)
            return ctx.select([o] if isinstance(ctx, WizardSelectManyContext) else o)
        return ctx

    turn = []

    def choose(many, options, defaults):
        turn.append(1)
        return [a if len(turn) == 1 else b]

    prog.compare(S, p, {"i": 0, "j": 0}, choose, pick, what="nested Select")


def jobs(tier):
    q = tier == "quick"
    for many in (False, True):
        for n in range(1, 4 if q else 5):
            yield f"offers {many} {n}", "offers", {"many": many, "n": n, "chars": "|ab" if n < 4 else "|a"}
        for o in range(1, 4 if q else 5):
            for c in range(1, 4 if q else 5):
                if o + c > (4 if q else 5) + (not many):
                    continue
                yield f"cases {many} {o} {c}", "cases", {"many": many, "nopt": o, "ncase": c, "chars": "|ab", "maxlen": 2 if o + c <= (3 if q else 4) else 1}
        for o, c, m in ((1, 1, 2), (2, 1, 1), (1, 2, 1), (2, 2, 1)) + (() if q else ((2, 1, 2), (1, 2, 2), (2, 2, 2))):
            yield f"cases wide {many} {o} {c} {m}", "cases", {"many": many, "nopt": o, "ncase": c, "chars": "", "maxlen": m, "domain": "uni"}
        for mask in (0, 15, 5, 2):
            yield f"big {many} {mask}", "big", {"many": many, "n": 10 if q else 25, "mask": mask}
        for n in range(0, 3 if q else 4):
            for d in (None, "none", "full", "break"):
                if n or d is not None:
                    yield f"empty {many} {n} {d}", "empty", {"many": many, "n": n, "dflt": d}
        for labels in ("AA", "AAB", "ABA", "xx", "xAx", "AxB") + (() if q else ("AAAA", "ABAB", "xxA", "BxAx")):
            for how in ("plain", "mixed"):
                yield f"repeated {many} {labels} {how}", "repeated", {"many": many, "labels": labels, "how": how}
        for n in (1, 2):
            yield f"again {many} {n}", "again", {"many": many, "ncase": n}
        for i in (False, True):
            for at in (0, 1, 2):
                yield f"nested {many} {i} {at}", "nested", {"outer_many": many, "inner_many": i, "at": at}
    for n in range(1, 4):
        for lv in (None, "ALLOW", "WARNING", "ERROR"):
            yield f"severity {n} {lv}", "severity", {"n": n, "level": lv}
