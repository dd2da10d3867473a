"""C18 the script runner and its callbacks."""

from harness.common import Issue, Pkg, Severity, SubPackages, Value, WizardError, WizardNameError, WizardTypeError
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerStatus

BOUNDS = {
    "quick": "scripts of one or two callbacks (SelectOne, SelectMany, RequireVersions, a manager function in an assignment, in a condition or in a For header, a warning), plain or in a loop "
    "of 2 turns, ending normally, by Return, Cancel or an error; at every callback an arbitrary answer, or abort (and whether to stop), rewind to any earlier callback, or a failure, "
    "at most 2 of these per run; scripts of 5 callbacks with one interruption at any of them, and a rewind at the end; symbolic variables and results of functions",
    "thorough": "as quick with up to three callbacks, and 3 interruptions per run for scripts of two",
}
ASSUMPTIONS = ["the script text parses"]
COVERS = {
    "all": [
        "answer", "abort", "not-stopped", "rewind", "failure", "complete", "return", "cancel", "error", "rewind-at-end", "two-runs",
    ]
}


class Boom(Exception):
    pass


class UI(WizardScriptRunner):
    """asks the harness what to do at every callback"""

    def __init__(self, on, subpackages=None):
        super().__init__(subpackages)
        self.on = on

    def selectOne(self, description, options, default):
        return self.on(self, "one", (description, list(options), default))

    def selectMany(self, description, options, default=[]):
        return self.on(self, "many", (description, list(options), list(default)))

    def requiresVersions(self, game_version, se_version, ge_version, wrye_bash_version):
        return self.on(self, "require", (game_version, se_version, ge_version, wrye_bash_version))

    def compareGameVersion(self, version):
        return self.on(self, "function", (version,))

    def warning(self, text):
        return self.on(self, "warning", (text,))

    def error(self, exc):
        return self.on(self, "error", (exc,))

    def cancel(self):
        return self.on(self, "cancel", ())

    def complete(self):
        return self.on(self, "complete", ())


OPTS = '"a", "A", "", \\\n"|b", "B", "i.png", \\\n"c", "C", " "\n'
CASES = 'Case "a"\nx = x + 1\nBreak\nCase "b"\nx = x * 2\nNote "b"\nBreak\nCase "c"\nx = 0 - x\nBreak\nEndSelect\n'
SEGMENTS = {
    "one": 'SelectOne "d", \\\n' + OPTS + CASES,
    "many": 'SelectMany "d", \\\n' + OPTS + CASES,
    "require": 'RequireVersions "1", "2"\nx = x + 5\n',
    "function": 'y = CompareGameVersion("v")\nx = x + y\n',
    "condition": 'If CompareGameVersion("v") > 0\nx = x + 7\nEndIf\n',
    "for": 'For y from 1 to CompareGameVersion("v")\nEndFor\n',
    "warning": 'y = x + nothing\nx = y + 3\n',
}
ENDS = {"plain": 'z = x\n', "return": "Return\n", "cancel": 'Cancel "m"\n', "type": 'z = x - "s"\nz = 1\n', "name": "z = 1\nCancel nope(1)\n"}


class Model:
    """what must happen: the callbacks in order, and the result"""

    def __init__(self, S, segs, end, env, interruptions):
        self.S, self.segs, self.end = S, segs, end
        self.left = interruptions
        self.state = dict(env, notes=[])
        self.pos = 0
        self.seen = []  # (position, state) at the earlier callbacks
        self.n = 0
        self.result = None

    def action(self, more):
        S = self.S
        self.n += 1
        if self.left == 0:
            a = "answer"
        else:
            a = S.choice(f"action{self.n}", ["answer"] + more)
        if a != "answer":
            self.left -= 1
        S.cover(a)
        return a

    def answers(self, kind):
        """(what the callback returns, effect on the state)"""
        S, st = self.S, self.state
        if kind == "one":
            k = S.choice(f"answer{self.n}", ["a", "b", "c"])
            return [k], [k]
        if kind == "many":
            k = S.choice(f"answer{self.n}", [[], ["a"], ["b", "c"], ["c", "a"]])
            return k, k
        if kind in ("function", "condition"):
            v = S.int(f"v{self.n}")
            return v, v
        if kind == "for":
            v = S.choice(f"v{self.n}", [0, 2])
            return v, v
        return None, None

    def apply(self, kind, effect):
        st = dict(self.state, notes=list(self.state["notes"]))
        if kind in ("one", "many"):
            for k in ("a", "b", "c"):
                if k in effect:
                    if k == "a":
                        st["x"] = st["x"] + 1
                    elif k == "b":
                        st["x"] = st["x"] * 2
                        st["notes"].append("b")
                    else:
                        st["x"] = 0 - st["x"]
        elif kind == "require":
            st["x"] = st["x"] + 5
        elif kind == "function":
            st["y"] = effect
            st["x"] = st["x"] + effect
        elif kind == "condition":
            if effect > 0:
                st["x"] = st["x"] + 7
        elif kind == "for":
            if effect > 0:
                st["y"] = effect
        elif kind == "warning":
            st["y"] = st["x"]
            st["x"] = st["y"] + 3
        self.state = st
        self.pos += 1


def scenario(S, kinds, loop, end, interruptions):
    segs = kinds * (2 if loop else 1)
    script = "".join(SEGMENTS[k] for k in kinds)
    if loop:
        script = f"For i from 1 to 2\n{script}EndFor\n"
    script += ENDS[end]
    x = S.int("x")
    m = Model(S, segs, end, {"x": x, "y": 0}, interruptions)
    wanted = []  # callbacks that must come next: None for those of the script
    ctxs = []
    ended = []

    def check_state(ui):
        st = ui.context().state
        S.check(S.same(st.variables["x"].value, m.state["x"]), "wrong variables at a callback")
        S.check(S.same(list(st.notes), m.state["notes"]), "wrong notes at a callback")

    def rewind(ui, more_contexts):
        j = S.choice(f"to{m.n}", range(len(more_contexts)))
        ctx, pos, st = more_contexts[j]
        m.pos, m.state = pos, st
        S.cover("rewind")
        ui.rewind(ctx)

    def fatal(ui, exc):
        wanted.append(("error", exc, (WizardScriptRunnerStatus.ERROR, m.state)))
        raise exc

    def on(ui, kind, args):
        S.check(not ended, "a callback after the end of the run")
        if wanted:
            want, check, res = wanted.pop()
            S.check(kind == want, f"{want} must be called after that")
            if want == "error":
                S.check(args[0] is check, "the error must be given as it was raised")
                ended.append(res)
                S.cover("error")
                return None
            if want == "cancel":
                # after abort(): stop, or the same step again
                if S.bool(f"stop{m.n}"):
                    ended.append(res)
                    return True
                S.cover("not-stopped")
                return False
        if m.pos < len(m.segs):
            seg = m.segs[m.pos]
            S.check(kind == {"condition": "function", "for": "function"}.get(seg, seg), "another callback than expected")
            if seg in ("one", "many"):
                d, opts, dflt = args
                S.check(d == "d" and [o.name for o in opts] == ["a", "b", "c"], "wrong dialog")
                S.check([o.description for o in opts] == ["A", "B", "C"] and [o.image for o in opts] == [None, "i.png", None], "wrong options")
                S.check((dflt == [opts[1]]) if seg == "many" else (dflt == opts[1]), "wrong default")
            elif seg == "require":
                S.check(args == ("1", "2", None, None), "wrong versions")
            elif seg != "warning":
                S.check(args == ("v",), "wrong argument")
            check_state(ui)
            a = m.action(["abort", "rewind", "failure", "boom"])
            here = (ui.context(), m.pos, m.state)
            if a == "abort":
                wanted.append(("cancel", None, (WizardScriptRunnerStatus.CANCEL, m.state)))
                ui.abort()
            if a == "rewind":
                rewind(ui, ctxs + [here])
            if a == "failure":
                fatal(ui, Boom("x"))
            if a == "boom":
                fatal(ui, WizardNameError(None, "x"))
            ctxs.append(here)
            ret, effect = m.answers(seg)
            m.apply(seg, effect)
            if seg == "one":
                return [o for o in args[1] if o.name in ret][0]
            if seg == "many":
                return [o for o in args[1] if o.name in ret]
            return ret
        # the end of the script
        S.check(kind == {"plain": "complete", "return": "complete", "cancel": "cancel", "type": "error", "name": "error"}[end], "another callback than expected at the end")
        st = m.state
        if end == "type":
            S.check(isinstance(args[0], WizardTypeError), "wrong error")
            ended.append((WizardScriptRunnerStatus.ERROR, st))
            return None
        if end == "name":
            S.check(isinstance(args[0], WizardNameError) and args[0].name == "nope", "wrong error")
            ended.append((WizardScriptRunnerStatus.ERROR, dict(st, z=1)))
            return None
        S.cover({"plain": "complete"}.get(end, end))
        if end == "plain":
            st = dict(st, z=st["x"])
        if ctxs and m.action(["rewind-at-end"]) == "rewind-at-end":
            rewind(ui, ctxs)
        ended.append(({"plain": WizardScriptRunnerStatus.COMPLETE, "return": WizardScriptRunnerStatus.RETURN, "cancel": WizardScriptRunnerStatus.CANCEL}[end], st))
        return True

    ui = UI(on, SubPackages([Pkg("P", ["a.esp"])]))
    # the start value comes from a function of the manager
    first = [True]

    def begin(ui_, kind, args):
        if first[0]:
            first[0] = False
            S.check(kind == "function" and args == ("start",), "another callback than expected")
            return x
        return on(ui_, kind, args)

    ui.on = begin
    status, state = ui.run('x = CompareGameVersion("start")\ny = 0\n' + script)
    S.check(len(ended) == 1, "the run ended too early")
    want, st = ended[0]
    S.check(status is want, "wrong status")
    for k in ("x", "y", "z"):
        S.check((k in st) == (k in state.variables), "wrong variables at the end")
        if k in st:
            S.check(S.same(state.variables[k].value, st[k]), "wrong variables at the end")
    S.check(S.same(list(state.notes), st["notes"]), "wrong notes at the end")
    return ui


def again(S, kinds, end):
    """a second run does not see the first"""
    scenario(S, kinds, False, end, 1)
    S.cover("two-runs")
    x = S.int("x2")
    answers = []

    def on(ui, kind, args):
        answers.append(kind)
        if kind == "function":
            return x
        return True

    ui = UI(on)
    for n in (1, 2):
        status, state = ui.run('x = CompareGameVersion("start")\nNote "n"\n')
        S.check(status is WizardScriptRunnerStatus.COMPLETE and S.same(state.variables["x"].value, x), "wrong result")
        S.check(list(state.notes) == ["n"] and len(state.variables) == 1, "a run sees an earlier one")
    S.check(answers == ["function", "complete"] * 2, "wrong callbacks")


def default_error(S, end):
    """without an own error() the error is raised"""

    class Default(UI):
        def error(self, exc):
            return WizardScriptRunner.error(self, exc)

    x = S.int("x")
    ui = Default(lambda ui, kind, args: x if kind == "function" else True)
    script = 'x = CompareGameVersion("start")\nIf x == 3\n' + ENDS[end] + "EndIf\n"
    try:
        status, state = ui.run(script)
    except WizardError as e:
        S.cover("error")
        S.check(x == 3, "unexpected error")
        S.check(isinstance(e, WizardTypeError if end == "type" else WizardNameError), "wrong error")
        return
    S.check(x != 3 and status is WizardScriptRunnerStatus.COMPLETE, "the error must be raised")


def declined(S, end):
    """a callback that does not want to stop at the end of the script"""
    script = "x = 1\n" + ENDS[end].replace("z = x\n", "") + "x = 2\n"
    x = S.bool("no")
    calls = []

    def on(ui, kind, args):
        calls.append(kind)
        if kind == "error":
            S.fail("answering not to stop must not be an error")
        return not x if len(calls) == 1 else True

    UI(on).run(script)


def late(S, where):
    """rewinding from the callbacks after abort() and after an error"""
    ctxs = []
    go = S.bool("go")
    calls = []

    def on(ui, kind, args):
        calls.append(kind)
        if kind == "function":
            ctxs.append(ui.context())
            if len(ctxs) == 1:
                if where == "cancel":
                    ui.abort()
                raise Boom("x")
            return 1
        if kind == where and go:
            ui.rewind(ctxs[0])
        return True

    try:
        status, state = UI(on).run('x = CompareGameVersion("start")\n')
    except WizardScriptRunner.RewindFlow:
        S.fail("rewinding from here must rewind")
    if go:
        S.check(status is WizardScriptRunnerStatus.COMPLETE and state.variables["x"].value == 1, "must go on from there")


def jobs(tier):
    q = tier == "quick"
    for a in SEGMENTS:
        for end in ENDS:
            yield f"{a} {end}", "scenario", {"kinds": [a], "loop": False, "end": end, "interruptions": 2}
        yield f"{a} loop", "scenario", {"kinds": [a], "loop": True, "end": "plain", "interruptions": 1 if q else 2}
        for b in SEGMENTS:
            yield f"{a} {b}", "scenario", {"kinds": [a, b], "loop": False, "end": "plain", "interruptions": 1 if q else 3}
            if not q:
                for c in SEGMENTS:
                    yield f"{a} {b} {c}", "scenario", {"kinds": [a, b, c], "loop": False, "end": "cancel", "interruptions": 1}
        several = [a, "require", "warning", "condition" if a != "condition" else "function", "require"]
        yield f"{a} long", "scenario", {"kinds": several, "loop": False, "end": "plain", "interruptions": 1}
        yield f"{a} again", "again", {"kinds": [a], "end": "plain"}
    for end in ("type", "name"):
        yield f"default error {end}", "default_error", {"end": end}
    for end in ("plain", "return", "cancel"):
        yield f"declined {end}", "declined", {"end": end}
    for where in ("cancel", "error"):
        yield f"late rewind from {where}", "late", {"where": where}
