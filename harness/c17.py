"""C17 severity of questionable script code."""

from harness.common import (
    Issue,
    Pkg,
    Sev,
    Severity,
    SubPackages,
    WizardMissingPackageError,
    WizardMissingPluginError,
    WizardNameError,
    WizardTypeError,
    run_script,
    sym_value,
)
from wizard.contexts import WizardSelectOneContext

BOUNDS = {
    "quick": "every issue the interpreter reports, at every position of histories of 2 settings (default or of any issue, to any level) in one context while another context "
    "has another setting; arbitrary missing names of 1..2 characters in installers with one plugin, with no plugins and with nothing, arbitrary booleans and sub-packages in Note, all marks of up to 3 options of a SelectOne, a "
    "variable that is set on an arbitrary condition; plus the policy itself on every history of 3 settings; up to 3 occurrences of the same issue",
    "thorough": "as quick with histories of 3 settings before every issue and 4 for the policy, and names of up to 3 characters",
}
ASSUMPTIONS = ["the wording of the warnings is outside the claim", "USAGE_OF_NON_STRING_CASE_LABELS is not reported by the interpreter"]
COVERS = {"all": ["error", "warning", "allow", "default", "specific", "other-issue", "no-issue", "another-context", "repeated"]}

LEVELS = [Severity.ALLOW, Severity.WARNING, Severity.ERROR]
ISSUES = [
    Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON,
    Issue.USAGE_OF_NOTSET_VARIABLES,
    Issue.USAGE_OF_ANYTHING_IN_NOTE,
    Issue.SELECT_MISSING_SUBPACKAGE,
    Issue.SELECT_MISSING_PLUGIN,
]


def settings(S, issue, count, others):
    """a context after arbitrary settings, and the level of the issue in it"""
    sev, other = Sev(), Sev()
    default, own = Severity.WARNING, None
    targets = [None, issue] + [i for i in ISSUES if i is not issue][:others]
    for n in range(count):
        t = S.choice(f"target{n}", targets)
        level = S.choice(f"level{n}", LEVELS)
        if t is None:
            S.cover("default")
            sev.set_default_severity(level)
            default = level
        else:
            sev.set_severity(t, level)
            if t is issue:
                S.cover("specific")
                own = level
            else:
                S.cover("other-issue")
        if n == 0:
            # another context has settings of its own
            S.cover("another-context")
            other.set_severity(issue, S.choice("foreign", LEVELS))
            other.set_default_severity(Severity.ALLOW)
    return sev, own if own is not None else default, other


def outcome(S, r, level, error, what):
    """True when the script goes on"""
    S.cover({Severity.ERROR: "error", Severity.WARNING: "warning", Severity.ALLOW: "allow"}[level])
    if level is Severity.ERROR:
        S.check(type(r.error) is error, f"{what}: must be an error")
        S.check(r.warnings == [], f"{what}: no warning expected")
        return False
    S.check(r.error is None and r.ctx.is_complete(), f"{what}: the script must go on")
    S.check(len(r.warnings) == (1 if level is Severity.WARNING else 0), f"{what}: wrong number of warnings")
    return True


def defaults(S, count):
    sev, level, _ = settings(S, ISSUES[0], count, 2)
    # options may have the same name
    names = ["a", "b", S.choice("name", ["a", "b", "c"])]
    marks = [S.choice(f"mark{i}", ["", "|"]) for i in range(3)]
    opts = ", \\\n".join(f'"{m}{n}", "", ""' for m, n in zip(marks, names))
    x = S.int("x")
    script = f'x++\nSelectOne "?", \\\n{opts}\n' + "".join(f'Case "{n}"\ny = "{n}"\nBreak\n' for n in "abc") + "EndSelect\n"
    shown = []

    def pick(ctx):
        if isinstance(ctx, WizardSelectOneContext):
            shown.append(ctx.default.name)
        return ctx

    r = run_script(S, script, {"x": x, "y": ""}, sev=sev, pick=pick)
    want = [n for m, n in zip(marks, names) if m]
    if len(want) < 2:
        S.cover("no-issue")
        S.check(r.error is None and r.warnings == [], "no issue with a single default")
    elif not outcome(S, r, level, WizardTypeError, "several defaults"):
        S.check(shown == [] and S.same(r.var("x").value, x + 1), "must stop at the SelectOne")
        return
    first = (want or names)[0]
    S.check(shown == [first] and r.var("y").value == first, "the first default is used")


def notset(S, count, how):
    sev, level, _ = settings(S, ISSUES[1], count, 2)
    c, x = S.bool("c"), S.int("x")
    use = {"read": "y = v\n", "expr": "y = v + 0\n", "if": "If v\ny = 1\nElse\ny = 0\nEndIf\n", "call": "y = int(v)\n", "while": "While v\nv = 0\ny = 1\nEndWhile\n"}[how]
    r = run_script(S, f"If c\nv = 0\nEndIf\nx++\n{use}x++\n", {"c": c, "x": x, "y": 0}, sev=sev)
    if bool(c):
        S.cover("no-issue")
        S.check(r.error is None and r.warnings == [], "a variable that was set")
    elif not outcome(S, r, level, WizardNameError, "a variable that was not set"):
        S.check(r.error.name == "v", "wrong name")
        S.check(S.same(r.var("x").value, x + 1), "must stop at the use")
        return
    S.check(S.same(r.var("y").value, 0) and S.same(r.var("x").value, x + 2), "a variable that was not set is 0")
    S.check(bool(c) or "v" not in r.state.variables, "using a variable does not set it")


def note(S, count, kind):
    sev, level, _ = settings(S, ISSUES[2], count, 2)
    v = sym_value(S, "v", kind, 2) if kind != "int" else S.choice("v", [0, 1, -3])
    r = run_script(S, 'Note "a"\nNote v\nNote "b"\n', {"v": v}, sev=sev, runner=True)
    if kind == "str":
        S.cover("no-issue")
        S.check(r.error is None and r.warnings == [], "a note that is a string")
    elif not outcome(S, r, level, WizardTypeError, "a note that is no string"):
        S.check(list(r.state.notes) == ["a"], "must stop at the note")
        return
    S.check(S.same(list(r.state.notes), ["a", v if kind == "str" else str(v), "b"]), "wrong notes")


WORLDS = {
    "one": [Pkg("P", ["a.esp"])],
    "none": [],
    "no plugins": [Pkg("P", ["a.txt"]), Pkg("Z")],
}


def missing(S, count, what, maxlen, world):
    issue, error = (ISSUES[3], WizardMissingPackageError) if what == "SubPackage" else (ISSUES[4], WizardMissingPluginError)
    sev, level, _ = settings(S, issue, count, 2)
    n = S.str("n", maxlen, chars="pPqx" if what == "SubPackage" else "a.EsSp", minlen=1 if what == "SubPackage" else maxlen)
    known = "p" if what == "SubPackage" else "a.esp"
    r = run_script(S, f"Select{what} n\nx = 1\n", {"n": n, "x": 0}, subpackages=SubPackages(WORLDS[world]), sev=sev, runner=True)
    if (world == "one" or world == "no plugins" and what == "SubPackage") and n.casefold() == known:
        S.cover("no-issue")
        S.check(r.error is None and r.warnings == [], "a name that exists")
        S.check(len(r.state.plugins if world == "one" else r.state.subpackages) == 1, "must be selected")
        return
    if not outcome(S, r, level, error, "a missing name"):
        S.check(S.same(r.error.subpackage, n), "wrong name in the error")
        S.check(r.var("x").value == 0, "must stop")
    else:
        S.check(r.var("x").value == 1, "must go on")
    S.check(len(r.state.plugins) == 0 and len(r.state.subpackages) == 0, "nothing is selected")


def repeated(S, issue, how):
    """the same issue is reported as often as it occurs"""
    sev = Sev()
    level = S.choice("level", LEVELS)
    sev.set_severity(issue, level)
    n, x = S.int("n", 0, 3), S.int("x")
    stmt = {
        "MULTIPLE_DEFAULTS_IN_SELECT_ON": 'SelectOne "d", \\\n"|a", "", "", \\\n"|b", "", ""\nCase "a"\nBreak\nEndSelect',
        "USAGE_OF_NOTSET_VARIABLES": "y = v",
        "USAGE_OF_ANYTHING_IN_NOTE": "Note 1",
        "SELECT_MISSING_SUBPACKAGE": 'SelectSubPackage "no"',
        "SELECT_MISSING_PLUGIN": 'SelectPlugin "no.esp"',
    }[issue.name]
    if how == "loop":
        text = f"While x < n\n{stmt}\nx++\nEndWhile\n"
    else:
        text = "".join(f"If x < n\n{stmt}\nx++\nEndIf\n" for _ in range(3))
    S.cover("repeated")
    r = run_script(S, text, {"n": n, "x": 0}, subpackages=SubPackages(WORLDS["one"]), sev=sev, runner=True)
    k = S.concrete(n)
    if level is Severity.ERROR and k:
        S.check(r.error is not None and not r.warnings, "must be an error")
        return
    S.check(r.error is None, "unexpected error")
    S.check(len(r.warnings) == (k if level is Severity.WARNING else 0), "every occurrence must be reported")


def repeated_of(S, name, how):
    repeated(S, Issue[name], how)


def other_statements(S, count):
    """de-selecting or renaming what does not exist is never an issue"""
    sev = Sev()
    sev.set_default_severity(S.choice("level", LEVELS))
    n = S.str("n", 1, "ascii")
    op = S.choice("op", ["DeSelectSubPackage", "DeSelectPlugin", "ResetPluginName"])
    r = run_script(S, f"{op} n\nRenamePlugin n, n\n", {"n": n}, subpackages=SubPackages([Pkg("P", ["a.esp"])]), sev=sev, runner=True)
    S.cover("no-issue")
    S.check(r.error is None and r.warnings == [], "no issue")


def policy(S, count, issue):
    """the policy itself, for any issue"""
    sev, level, other = settings(S, issue, count, 4)
    text = S.str("text", 1, "uni")
    exc = KeyError("exc")
    raised = None
    try:
        sev.raise_or_warn(issue, exc, text)
    except KeyError as e:
        raised = e
    S.check((raised is exc) == (level is Severity.ERROR), "the error must be raised as given at level ERROR only")
    S.check(S.same(sev.warnings, [text] if level is Severity.WARNING else []), "the warning must be given as it is at level WARNING only")
    S.check(other.warnings == [], "another context gives no warning")


def jobs(tier):
    q = tier == "quick"
    n = 2 if q else 3
    yield "defaults", "defaults", {"count": 1 if q else 2}
    for how in ("read", "expr", "if", "call", "while"):
        yield f"notset {how}", "notset", {"count": n, "how": how}
    for k in ("bool", "int", "str", "subpackage"):
        yield f"note {k}", "note", {"count": n, "kind": k}
    for what in ("SubPackage", "Plugin"):
        for m in (1, 2) if q else (1, 2, 3):
            for world in WORLDS:
                yield f"missing {what} {m} {world}", "missing", {"count": n if world == "one" or not q else 1, "what": what, "maxlen": m if what == "SubPackage" else (1, 5, 6)[m - 1], "world": world}
    for i in ISSUES:
        for how in ("loop", "row"):
            yield f"repeated {i.name} {how}", "repeated_of", {"name": i.name, "how": how}
    yield "other", "other_statements", {"count": n}
    for i, issue in enumerate(Issue):
        yield f"policy {i}", "policy_of", {"count": 3 if q else 4, "name": issue.name}


def policy_of(S, count, name):
    policy(S, count, Issue[name])
