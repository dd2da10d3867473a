"""C21 errors of scripts are script errors at the right place."""

from harness import prog
from harness.common import (
    Pkg,
    Sev,
    Severity,
    SubPackages,
    Value,
    Void,
    WizardError,
    WizardIndexError,
    WizardMissingPackageError,
    WizardMissingPluginError,
    WizardNameError,
    WizardParseError,
    WizardRunnerState,
    WizardTerminationContext,
    WizardTopLevelContext,
    WizardTypeError,
    make_factory,
    run_script,
)
from harness.prog import WRAPS, Stop

BOUNDS = {
    "quick": "every way to fail (about 70: types, names, indices, arguments, misplaced statements, missing names at severity ERROR, broken headers) alone, in every block and in nests of 2 blocks "
    "(loops of 2 turns, arbitrary conditions), with arbitrary operand values; the failing expression at an arbitrary depth of parentheses and operators up to 3",
    "thorough": "as quick with nests of 3 blocks out of For-range, While, If and Case without Break",
}
ASSUMPTIONS = [
    "arithmetic errors of Python (division by zero, overflow, a For step of 0, int() of a text that is no number) and versions of RequireVersions that are no texts are outside the claim",
    "the wording of the messages is outside the claim",
]
COVERS = {"all": ["type", "name", "index", "parse", "missing", "not-reached", "second-turn"]}
OPTIONS = {"max_steps": 5000000}

T, N, I, P = WizardTypeError, WizardNameError, WizardIndexError, WizardParseError
SP, PL = WizardMissingPackageError, WizardMissingPluginError
# statement (the failing part between « »), error, attribute or None
FAIL = {
    "add": ("x = 1 + («y + s»)", T, None),
    "sub": ("x = «y - s» + 1", T, None),
    "mul": ("x = y + «s * 2»", T, None),
    "div": ("x = «y / s»", T, None),
    "mod": ("x = «s % y»", T, None),
    "pow": ("x = «y ^ s»", T, None),
    "neg": ("x = y + «-s»", T, None),
    "order": ("x = «y < s»", T, None),
    "order2": ("x = y == («s >= y»)", T, None),
    "colon": ("x = «y ==: s»", T, None),
    "colon2": ("x = 1 + («s <: y»)", T, None),
    "in": ("x = «s in y»", T, None),
    "in2": ("x = «y in SubPackages»", T, None),
    "index": ("x = y + «s[k]»", I, "k"),
    "index2": ("x = «SubPackages[k]»", I, "k"),
    "index3": ("x = str(«SubPackages[0][k]»)", I, "k"),
    "index type": ("x = «y[0]»", T, None),
    "index type 2": ("x = «s[s]»", T, None),
    "slice": ("x = «y[1:2]»", T, None),
    "slice 2": ("x = «s[s:2]»", T, None),
    "function": ("x = y + «nope(y)»", N, "nope"),
    "function args": ("x = y + «len()»", T, None),
    "function many": ("x = y + «len(s, s)»", T, None),
    "find one": ("x = «find(s)»", T, None),
    "method": ("x = y + «s.nope(y)»", N, "string.nope"),
    "method 2": ("x = y + «y.len()»", N, "integer.len"),
    "method args": ("x = y + «s.find()»", T, None),
    "own": ("x = «failing(y)»", T, None),
    "own index": ("x = «failing(s)»", I, "y"),
    "inc": ("x = y + «nope++»", N, "nope"),
    "dec": ("x = y + «--nope»", N, "nope"),
    "inc statement": ("«nope++»", N, "nope"),
    "inc void": ("x = 1 + «v++»", T, None),
    "dec void": ("«--v»", T, None),
    "compound void": ("«v += 1»", T, None),
    "void": ("x = 1 + («v + y»)", T, None),

    "no option": ('«SelectOne "d"»\nEndSelect', T, None),
    "no option 2": ('«SelectOne s»\nCase "a"\nx = 1\nBreak\nEndSelect', T, None),
    "inc type": ("x = 1 + «s++»", T, None),
    "expression": ("y + («s - y»)", T, None),
    "compound": ("«nope += y»", N, "nope"),
    "compound type": ("«x -= s»", T, None),
    "compound value": ("x -= «y - s»", T, None),
    "notset": ("x = y + «nope» + 1", N, "nope"),
    "exec": ("x = 1 + («Exec(s)»)", N, None),
    "if": ("If «y < s»\nEndIf", T, None),
    "elif": ("If 0\nElif «y < s»\nEndIf", T, None),
    "while": ("While «y < s»\nEndWhile", T, None),
    "for lo": ("For i from «s» to 2\nEndFor", T, None),
    "for hi": ("For i from 1 to «s»\nEndFor", T, None),
    "for by": ("For i from 1 to 2 by «s»\nEndFor", T, None),
    "for in": ("For i «in y»\nEndFor", T, None),
    "cancel": ("Cancel «y»", T, None),
    "cancel 2": ("Cancel «y - s»", T, None),
    "description": ('SelectOne «y», "a", "b", "c"\nCase "a"\nEndSelect', T, None),
    "option": ('SelectOne "d", "a", "b", "c", «y», "b", "c"\nCase "a"\nEndSelect', T, None),
    "image": ('SelectMany "d", "a", "b", «y»\nCase "a"\nEndSelect', T, None),
    "case": ('SelectOne "d", "a", "b", "c"\nCase «y»\nEndSelect', T, None),
    "second case": ('SelectOne "d", "a", "b", "c"\nCase "b"\nCase «y»\nEndSelect', T, None),
    "defaults": ('«SelectOne "d", "|a", "b", "c", "|b", "", ""»\nCase "a"\nEndSelect', T, None),
    "note": ("«Note y»", T, None),
    "note value": ("Note «y - s»", T, None),
    "few": ('«RenamePlugin s»', T, None),
    "many": ('«SelectPlugin s, s»', T, None),
    "name 1": ("«SelectPlugin y»", T, None),
    "name 2": ("«DeSelectPlugin y»", T, None),
    "name 3": ("«SelectSubPackage v»", T, None),
    "name 4": ("«DeSelectSubPackage y»", T, None),
    "name 5": ("«ResetPluginName y»", T, None),
    "name 6": ("«RenamePlugin y, s»", T, None),
    "name 7": ("«RenameEspm s, y»", T, None),
    "name 8": ("«ResetEspmName SubPackages»", T, None),
    "package": ('«SelectSubPackage "nope"»', SP, "nope"),
    "plugin": ('«SelectPlugin "nope"»', PL, "nope"),
    "for header": ("«For»", P, None),
    "exec args": ("«Exec(s, s)»", T, None),
    "exec type": ("Exec(«y»)", T, None),
}


def failing(st, vs):
    if isinstance(vs[0].value, str):
        raise IndexError("y")
    raise TypeError("no")


def split(stmt):
    return stmt.replace("«", "").replace("»", ""), stmt.index("«")


def run(S, outer, key, turns=2, late=False):
    stmt, error, attr = FAIL[key]
    plain, offset = split(stmt)

    def fail(S_, ref):
        raise Stop("error")

    leaf = ("stmt", plain, fail)
    if late:
        leaf = ("if", [(("ask", 77), [leaf])], None)
    p = prog.spine(outer, [("inc", "x"), leaf, ("log", 98)], turns)
    script = prog.text(p)
    at = script.index(plain) + offset
    line = script.count("\n", 0, at) + 1
    column = at - (script.rfind("\n", 0, at) + 1)
    k = S.int("k")
    S.assume(S.any(k >= 6, k < -6))
    y = S.int("y")
    s = S.str("s", 2, "ascii")
    env = {"i": 0, "j": 0, "x": 0, "y": y, "s": s, "k": k, "v": Void()}
    d = prog.Decisions(S)
    log = []
    ask = d.reader(log)
    sev = Sev(Severity.ERROR)
    fns = {
        "log": lambda st, vs: (log.append(tuple(v.value for v in vs)), Value(Void()))[1],
        "ask": lambda st, vs: Value(ask(vs[0].value)),
        "failing": failing,
    }
    r = run_script(S, script, env, functions=fns, subpackages=SubPackages([Pkg("P", ["a.esp"])]), sev=sev, runner=True)
    ref = prog.Ref(S, env, None, 200)
    ref.ask = d.reader(ref.log)
    how, _ = ref.run(p)
    what = f"{key} in {outer}"
    S.check(len(log) == len(ref.log) and S.same(log, ref.log), f"{what}: other statements were executed")
    if how != "error":
        S.cover("not-reached")
        S.check(r.error is None, f"{what}: unexpected error")
        return
    e = r.error
    S.cover({T: "type", N: "name", I: "index", P: "parse", SP: "missing", PL: "missing"}[error])
    if sum(1 for l in ref.log if l == ("ask", 77)) > 1:
        S.cover("second-turn")
    S.check(e is not None, f"{what}: must be an error")
    S.check(type(e) is error, f"{what}: wrong kind of error")
    S.check(e.line == line, f"{what}: wrong line")
    S.check(e.column == column, f"{what}: wrong column")
    S.check(isinstance(e, WizardError) and e.context is not None, f"{what}: no context")
    if attr is not None:
        want = k if attr == "k" else attr
        got = e.index if error is I else e.name if error is N else e.subpackage
        S.check(S.same(got, want), f"{what}: wrong detail in the error")
    if error is not P and attr != "k":
        t = str(e)
        S.check(t.startswith(f"Line {line}, Column {column}: "), f"{what}: wrong text of the error")
        if attr not in (None, "y"):
            S.check(attr in e.message, f"{what}: the message must name it")
    S.check(S.same({n: v.value for n, v in r.ctx.state.variables.items()}, ref.env), f"{what}: a failing statement must not change the variables of its context")


def nest(S, first, rest, key, wraps, turns=2, late=False):
    outer = ([first] if first else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    run(S, outer, key, turns, late)


def depth(S, key, n):
    """the failing expression inside other expressions"""
    stmt, error, attr = FAIL[key]
    inner = stmt[stmt.index("«") : stmt.index("»") + 1]
    text = inner
    for d in range(n):
        text = S.choice(f"e{d}", ["({})", "({}) + 1", "1 - ({})", "not ({})", "len({})", "find(s, {}, y)", "s[({}):y]", "SubPackages[({})]", "({}) in SubPackages", "(y) == ({})", "({}).str()"]).format(text)
    where = S.choice("where", ["x = {}", "x += {}", "{}", "If {}\nEndIf", "While {}\nEndWhile", "Note {}", "Cancel {}", "For i in {}\nEndFor", "For i from {} to y\nEndFor", "EditINI(s, s, s, {})", "Exec({})"])
    plain, offset = split("z++\n" + where.format(text) + "\n")
    line = plain.count("\n", 0, offset) + 1
    column = offset - (plain.rfind("\n", 0, offset) + 1)
    k = S.int("k")
    S.assume(S.any(k >= 6, k < -6))
    s = S.str("s", 1, "ascii")
    r = run_script(S, plain, {"x": 0, "z": 0, "y": S.int("y"), "s": s, "k": k}, functions={"failing": failing}, subpackages=SubPackages([Pkg("P", ["a.esp"])]), sev=Sev(Severity.ERROR), runner=True)
    e = r.error
    S.cover({T: "type", N: "name", I: "index"}[error])
    S.check(type(e) is error, f"{key}: wrong kind of error")
    S.check(e.line == line and e.column == column, f"{key}: wrong position")
    if attr is not None:
        S.check(S.same(e.index if error is I else e.name, k if attr == "k" else attr), f"{key}: wrong detail")
    S.check(r.var("z").value == 1, f"{key}: must stop there")


def jobs(tier):
    q = tier == "quick"
    some = ("for", "while", "if", "fall")
    for key in FAIL:
        if key == "for header":
            yield f"{key} alone", "nest", {"first": None, "rest": 0, "key": key, "wraps": WRAPS}
            continue
        yield f"{key}", "nest", {"first": None, "rest": 1, "key": key, "wraps": WRAPS}
        for w in ("if", "for") if q else WRAPS:
            yield f"{key} in {w}", "nest", {"first": w, "rest": 1, "key": key, "wraps": WRAPS}
        if not q or key in ("add", "index", "function", "case", "package"):
            yield f"{key} late", "nest", {"first": None, "rest": 1, "key": key, "wraps": WRAPS, "turns": 3, "late": True}
        if not q:
            for w in some:
                yield f"{key} in {w} 2", "nest", {"first": w, "rest": 2, "key": key, "wraps": some}
    for key in ("add", "index", "function", "method", "own", "inc", "order", "slice", "find one"):
        for n in range(0, 3 if q else 4):
            if n < 3 or key in ("add", "function"):
                yield f"depth {key} {n}", "depth", {"key": key, "n": n}
