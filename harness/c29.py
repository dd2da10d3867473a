"""C29 a run depends only on the script, its start state, the world and the answers."""

import io
import pathlib
import tempfile

from antlr4 import InputStream
from harness.common import (
    Pkg,
    Sev,
    Severity,
    SubPackages,
    Value,
    Void,
    WizardError,
    WizardExpressionVisitor,
    WizardInterpreter,
    WizardInterpreterContextFactory,
    WizardKeywordVisitor,
    WizardRunnerExpressionVisitor,
    WizardRunnerKeywordVisitor,
    WizardRunnerState,
    WizardTerminationContext,
    WizardTopLevelContext,
    make_basic_functions,
)
from wizard import contexts as K
from wizard.state import WizardInterpreterState
from wizard.utils import make_basic_context_factory, make_runner_context_factory, make_top_level_context

BOUNDS = {
    "quick": "8 scripts with every kind of statement; start variables: an arbitrary integer and boolean, a text of one arbitrary character; two runs with different variables of one parsed script, one factory and one list of "
    "sub-packages, advanced in turn changing from one to the other up to 3 times after 1, 2 or 5 steps, then to the end; exec_until from every step of a run for 9 lists of targets; applications that replace every kind of context; custom states and keywords; copies of every context of a run and of its parent",
    "thorough": "as quick, up to 4 changes; three runs and 3 changes",
}
ASSUMPTIONS = ["the detection of the encoding of a file or byte stream is outside the claim, unless it is ASCII or starts with a byte order mark"]
COVERS = {"all": ["interleaved", "until", "target", "immediate", "end", "sources", "custom", "state", "error", "warnings", "keywords", "copies"]}
OPTIONS = {"max_steps": 5000000}

SEL = '"d", \\\n"a", "A", "", \\\n"|b", "B", "i.png"\n'
SCRIPTS = {
    "assign": "z = x\nx += 1\nIf b\n x = x * 2\nElif x == z\n x = 0\nElse\n x = -x\nEndIf\nNote s\n",
    "loops": "For k from 1 to 2\n x++\n While x < k\n x = x + k\n Break\n EndWhile\n If b\n  Continue\n EndIf\n Note s\nEndFor\n",
    "in": "For k in SubPackages\n For f in k\n  Note f + s\n EndFor\n x++\nEndFor\n",
    "select": f"SelectOne {SEL}Case \"a\"\n x++\n Break\nCase s\n Note s\n Break\nDefault\n x = 7\nEndSelect\nSelectMany {SEL}Case \"a\"\n x++\nCase \"b\"\n x = x * 2\n Break\nEndSelect\n",
    "packages": 'SelectSubPackage "P"\nIf b\n SelectAll\n DeSelectPlugin "A.esp"\nEndIf\nRenamePlugin "a.esp", s\nRequireVersions s\nNote s\nIf x > 0\n DeSelectAll\nEndIf\n',
    "exec": 'Exec("x++\\nIf b\\nNote s\\nEndIf\\n")\nEditINI("f", "s", s, x)\nDisableINILine("f", s, "k")\nx = sin(0)\n',
    "ends": "x++\nIf b\n If x > 0\n  Cancel s\n EndIf\n Return\nEndIf\nx++\n",
    "errors": "x += nothing\nx++\nx++\nIf b\n x = x - s\nEndIf\nSelectPlugin s\nx++\n",
}


def world():
    return SubPackages([Pkg("P", ["a.esp", "c.txt"]), Pkg("Q", ["b.esp", "A.esp"])])


def variables(S, tag=""):
    return {"x": S.int("x" + tag), "b": S.bool("b" + tag), "s": S.str("s" + tag, 1)}


def state_of(env, cls=WizardRunnerState):
    st = cls()
    for k, v in env.items():
        st.set(k, Value(v))
    return st


def factory_of(sps, sev, cls=WizardInterpreterContextFactory):
    return cls(WizardRunnerExpressionVisitor(sps, make_basic_functions(), sev), WizardRunnerKeywordVisitor(sps, sev), sev)


def snap(st):
    vs = dict(st.variables)
    return [
        {k: v.value for k, v in vs.items()},
        [p.name for p in st.subpackages],
        [p.name for p in st.plugins],
        [(k.name, v) for k, v in st.renames.items()],
        list(st.notes),
        [(t.filename, t.section, t.setting) for t in st.tweaks.disabled],
        [(t.filename, t.section, t.setting, t.value) for t in st.tweaks.modified],
    ]


class Run:
    """a run, one step at a time"""

    def __init__(self, ctx):
        self.ctxs = [ctx]
        self.error = None

    def over(self):
        return self.error is not None or isinstance(self.ctxs[-1], WizardTerminationContext)

    def step(self):
        try:
            self.ctxs.append(self.ctxs[-1].exec())
        except WizardError as e:
            self.error = e

    def finish(self):
        n = 0
        while not self.over():
            n += 1
            assert n < 300
            self.step()
        return self


def same_run(S, a, b, what):
    S.check(len(a.ctxs) == len(b.ctxs), f"{what}: another number of steps")
    S.check((a.error is None) == (b.error is None), f"{what}: another outcome")
    if a.error is not None:
        S.check(type(a.error) is type(b.error) and a.error.line == b.error.line and a.error.column == b.error.column, f"{what}: another error")
    for x, y in zip(a.ctxs, b.ctxs):
        S.check(S.all(*[S.same(p, q) for p, q in zip(snap(x.state), snap(y.state))]), f"{what}: another state")
    x, y = a.ctxs[-1], b.ctxs[-1]
    S.check(type(x) is type(y), f"{what}: another last step")
    if isinstance(x, WizardTerminationContext):
        S.check(x.is_cancel() == y.is_cancel() and x.is_return() == y.is_return() and x.is_complete() == y.is_complete(), f"{what}: another end")
        S.check(S.same(x.message(), y.message()), f"{what}: another message")


def interleave(S, script, switches, runs):
    """runs of one parsed script by one factory do not influence each other"""
    tree = S.parse(SCRIPTS[script])
    sps, sev = world(), Sev(Severity.WARNING)
    factory = factory_of(sps, sev)
    envs = [variables(S, str(n)) for n in range(runs)]
    # alone, everything of its own
    alone, warnings = [], []
    for env in envs:
        mine = Sev(Severity.WARNING)
        alone.append(Run(WizardTopLevelContext(factory_of(world(), mine), S.parse(SCRIPTS[script]), None, state_of(env))).finish())
        warnings += mine.warnings
    starts = [state_of(env) for env in envs]
    before = [snap(st) for st in starts]
    now = [Run(WizardTopLevelContext(factory, tree, None, st)) for st in starts]
    at, n = 0, 0
    while n < switches:
        n += 1
        # how long the run goes on before the other
        k = S.choice(f"k{n}", [1, 2, 5])
        for _ in range(k):
            if not now[at].over():
                now[at].step()
        at = (at + 1) % runs
    for r in now:
        r.finish()
    S.cover("interleaved")
    for r, a in zip(now, alone):
        same_run(S, r, a, f"{script}: in turn with another run")
        if r.error is not None:
            S.cover("error")
    if warnings:
        S.cover("warnings")
    S.check(len(sev.warnings) == len(warnings), f"{script}: other warnings")
    for st, old in zip(starts, before):
        S.check(S.all(*[S.same(p, q) for p, q in zip(snap(st), old)]), f"{script}: the start state changed")
    S.check([p.name for p in sps] == ["P", "Q"], f"{script}: the list of sub-packages changed")


TARGETS = {
    "none": [],
    "one": [K.WizardSelectOneContext],
    "dialogs": [K.WizardSelectOneContext, K.WizardSelectManyContext],
    "body": [K.WizardBodyContext],
    "if or loop": [K.WizardIfContext, K.WizardForLoopContext, K.WizardWhileLoopContext],
    "base": [K.WizardInterpreterContext],
    "keyword": [K.WizardKeywordContext],
    "end": [WizardTerminationContext],
    "cancel": [K.WizardCancelContext, K.WizardReturnContext],
}


def where(ctx):
    return ctx.context.start.line, ctx.context.start.column


def until(S, script, targets):
    """exec_until gives the first context of a run of one of the types, or the end"""
    env = variables(S)
    sev = Sev(Severity.ALLOW)
    factory = factory_of(world(), sev)
    interp = WizardInterpreter(factory)
    run = Run(interp.make_top_level_context(SCRIPTS[script], state_of(env))).finish()
    want = tuple(TARGETS[targets])
    S.cover("until")
    for at, c in enumerate(run.ctxs):
        i = at
        while i < len(run.ctxs) and not isinstance(run.ctxs[i], want + (WizardTerminationContext,)):
            i += 1
        try:
            got = interp.exec_until(c, list(TARGETS[targets]) if at % 2 else want)
        except WizardError as e:
            S.check(i == len(run.ctxs) and run.error is not None, f"{script}: an error before the target")
            S.check(type(e) is type(run.error), f"{script}: another error")
            S.cover("error")
            continue
        S.check(i < len(run.ctxs), f"{script}: no error, and no target")
        if i == at:
            S.cover("immediate")
            S.check(got is c, f"{script}: a target must be given back at once")
        S.cover("end" if isinstance(got, WizardTerminationContext) else "target")
        S.check(type(got) is type(run.ctxs[i]) and where(got) == where(run.ctxs[i]), f"{script}: another context than the first target")
        S.check(S.all(*[S.same(p, q) for p, q in zip(snap(got.state), snap(run.ctxs[i].state))]), f"{script}: the target has another state")


class NullManager:
    """a manager that is not asked"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args: 0


TEXTS = {
    "empty": "",
    "blank": "\n \n",
    "comment": "; nothing",
    "accents": 'u = "\u00e9t\u00e9 \u0416"\nx++\nNote u + s\n',
    "dos": 'x++\r\nIf b\r\n Note s\r\nEndIf\r\nx *= 2',
}


def sources(S, script):
    """strings, text files and streams are the same; so are the ways to start"""
    env = variables(S)
    text = TEXTS[script] if script in TEXTS else SCRIPTS[script]
    sev = Sev(Severity.ALLOW)
    factory = factory_of(world(), sev)
    interp = WizardInterpreter(factory)
    tree = Run(WizardTopLevelContext(factory, S.parse(text), None, state_of(env))).finish()
    S.cover("sources")
    same_run(S, Run(interp.make_top_level_context(text, state_of(env))).finish(), tree, f"{script}: a string")
    same_run(S, Run(interp.make_top_level_context(io.StringIO(text), state_of(env))).finish(), tree, f"{script}: a text file")
    same_run(S, Run(interp.make_top_level_context(InputStream(text), state_of(env))).finish(), tree, f"{script}: a stream")
    same_run(S, Run(make_top_level_context(text, factory, state_of(env))).finish(), tree, f"{script}: make_top_level_context")
    for encoding in ("ascii", "utf-8-sig", "utf-16") if text.isascii() else ("utf-8-sig", "utf-16"):
        data = text.encode(encoding)
        same_run(S, Run(make_top_level_context(io.BytesIO(data), factory, state_of(env))).finish(), tree, f"{script}: bytes ({encoding})")
        with tempfile.TemporaryDirectory() as d:
            path = pathlib.Path(d) / "wizard.txt"
            path.write_bytes(data)
            same_run(S, Run(make_top_level_context(path, factory, state_of(env))).finish(), tree, f"{script}: a file ({encoding})")
    sev = Sev(Severity.ALLOW)
    made = make_runner_context_factory(world(), NullManager(), sev)
    same_run(S, Run(make_top_level_context(text, made, state_of(env))).finish(), tree, f"{script}: make_runner_context_factory")


def defaults(S):
    """without a state, runs start empty"""
    sev = Sev()
    factory = make_basic_context_factory(world(), sev)
    interp = WizardInterpreter(factory)
    x = S.int("x")
    for make in (interp.make_top_level_context, lambda t: make_top_level_context(t, factory)):
        for _ in range(2):
            first = make("y = 1\nz = 2\n")
            S.check(type(first.state) is WizardInterpreterState and len(first.state.variables) == 0, "the start state must be empty")
            run = Run(first).finish()
            S.check(set(run.ctxs[-1].state.variables) == {"y", "z"}, "variables y and z")
            S.check(len(first.state.variables) == 0, "the start state changed")
            first.state.set("x", Value(x))
            run = Run(first).finish()
            S.check(S.same(run.ctxs[-1].state.variables["x"].value, x), "a variable set before the run")
    given = {"x": Value(x)}
    st = WizardInterpreterState(given)
    run = Run(interp.make_top_level_context("x += 1\ny = x\n", st)).finish()
    S.check(S.same(run.ctxs[-1].state.variables["y"].value, x + 1), "a start state made from a mapping")
    S.check(list(given) == ["x"] and S.same(given["x"].value, x) and S.same(st.variables["x"].value, x), "the mapping of the start state changed")
    # the mapping and the states made from it are independent
    other = WizardInterpreterState(given)
    st.set("x", Value(x + 1))
    st.set("z", Value(7))
    S.check(list(given) == ["x"] and S.same(given["x"].value, x), "setting a variable of a state changed the mapping it was made from")
    S.check(list(other.variables) == ["x"] and S.same(other.variables["x"].value, x), "setting a variable of a state changed another state")
    given["x"] = Value(x + 2)
    given["w"] = Value(1)
    S.check(list(other.variables) == ["x"] and S.same(other.variables["x"].value, x), "changing the mapping changed a state made from it")
    S.check(S.same(st.variables["x"].value, x + 1) and st.variables["z"].value == 7 and "w" not in st.variables, "changing the mapping changed a state made from it")


class Mine(WizardRunnerState):
    """what an application adds to the state"""

    def __init__(self):
        super().__init__()
        self.extra = []

    def copy(self):
        st = super().copy()
        st.extra = list(self.extra)
        return st


def state(S, script):
    """the state of the application goes through every step, with what its copy() keeps"""
    env = variables(S)
    sev = Sev(Severity.ALLOW)
    plain = Run(WizardTopLevelContext(factory_of(world(), sev), S.parse(SCRIPTS[script]), None, state_of(env))).finish()

    class Keywords(WizardRunnerKeywordVisitor):
        def visitNote(self, context, state, text):
            super().visitNote(context, state, text)
            state.extra.append(text)

    sps = world()
    factory = WizardInterpreterContextFactory(WizardRunnerExpressionVisitor(sps, make_basic_functions(), sev), Keywords(sps, sev), sev)
    st = state_of(env, Mine)
    st.extra.append("start")
    run = Run(WizardTopLevelContext(factory, S.parse(SCRIPTS[script]), None, st)).finish()
    same_run(S, run, plain, f"{script}: with a state of the application")
    S.cover("state")
    for c in run.ctxs:
        S.check(type(c.state) is Mine, f"{script}: the state is not that of the application")
        S.check(S.same(["start"] + list(c.state.notes), c.state.extra), f"{script}: the state of the application is not kept")
    S.check(st.extra == ["start"], f"{script}: the start state changed")


def keywords(S, order):
    """what the keywords of an application do in a run stays in this run"""
    sps = world()
    sev = Sev(Severity.ALLOW)

    class Keywords(WizardRunnerKeywordVisitor):
        def visitSelectAll(self, context, state):
            super().visitSelectAll(context, state)
            self.visitDeSelectSubPackage(context, state, "Q")

        def visitNote(self, context, state, text):
            self.visitSelectAll(context, state)
            super().visitNote(context, state, text)
            self.visitDeSelectSubPackage(context, state, text)

        def visitDeSelectAll(self, context, state):
            super().visitDeSelectAll(context, state)
            self.visitSelectSubPackage(context, state, "Q")

    factory = WizardInterpreterContextFactory(WizardRunnerExpressionVisitor(sps, make_basic_functions(), sev), Keywords(sps, sev), sev)
    script = {
        "all": "SelectAll\nn = 0\nFor p in SubPackages\n n++\nEndFor\nx += n\n",
        "note": "Note s\nSelectAllPlugins\nDeSelectSubPackage s\n",
        "deselect": "SelectSubPackage s\nDeSelectAll\nSelectAll\nDeSelectAll\n",
    }[order]
    selected = {"all": ["P"], "note": None, "deselect": ["Q"]}[order]
    env = variables(S)
    env["s"] = S.choice("pkg", ["p", "q", "r"])
    S.cover("keywords")
    st = state_of(env)
    runs = [Run(WizardTopLevelContext(factory, S.parse(script), None, st)).finish() for _ in range(2)]
    S.check([p.name for p in sps] == ["P", "Q"], "the list of sub-packages changed")
    same_run(S, runs[0], runs[1], "a second run")
    for r in runs:
        S.check(r.error is None, "no error expected")
        end = r.ctxs[-1].state
        got = [p.name for p in end.subpackages]
        S.check(got == (selected if selected is not None else [] if env["s"] == "p" else ["P"]), "wrong selection")
        if order == "all":
            S.check(S.same(end.variables["x"].value, env["x"] + 2), "the list of sub-packages in the script")


MAKERS = {
    "make_cancel_context": K.WizardCancelContext,
    "make_return_context": K.WizardReturnContext,
    "make_exec_context": K.WizardInterpreterContext,
    "make_body_context": K.WizardBodyContext,
    "make_assignment_context": K.WizardAssignmentContext,
    "make_compound_assignment_context": K.WizardCompoundAssignmentContext,
    "make_keyword_context": K.WizardKeywordContext,
    "make_break_context": K.WizardBreakContext,
    "make_continue_context": K.WizardContinueContext,
    "make_termination_context": K.WizardTerminationContext,
    "make_for_loop_context": K.WizardForLoopContext,
    "make_while_loop_context": K.WizardWhileLoopContext,
    "make_if_context": K.WizardIfContext,
    "make_select_context": K.WizardSelectContext,
    "make_select_cases_context": K.WizardSelectCasesContext,
    "make_case_context": K.WizardCaseContext,
}


def factories(S, script):
    """the factory of the application makes every context"""
    env = variables(S)
    sev = Sev(Severity.ALLOW)
    plain = Run(WizardTopLevelContext(factory_of(world(), sev), S.parse(SCRIPTS[script]), None, state_of(env))).finish()

    class Factory(WizardInterpreterContextFactory):
        pass

    def maker(name):
        def make(self, *args):
            ctx = getattr(WizardInterpreterContextFactory, name)(self, *args)
            ctx.made_by = name
            return ctx

        return make

    for name in MAKERS:
        setattr(Factory, name, maker(name))

    factory = factory_of(world(), sev, Factory)
    run = Run(WizardTopLevelContext(factory, S.parse(SCRIPTS[script]), None, state_of(env))).finish()
    same_run(S, run, plain, f"{script}: with a factory of the application")
    S.cover("custom")
    for c in run.ctxs:
        S.check(c.factory is factory, f"{script}: a context of another factory")
        if isinstance(c, WizardTopLevelContext):
            continue
        S.check(hasattr(c, "made_by"), f"{script}: a {type(c).__name__} not made by the factory")
        S.check(isinstance(c, MAKERS[c.made_by]), f"{script}: {c.made_by} gave another context")
        # the parents up to the top
        p, n = c, 0
        while not p.is_top_level():
            p = p.parent
            n += 1
            S.check(n < 30, f"{script}: no end of parents")
            S.check(p.factory is factory, f"{script}: a parent of another factory")
        S.check(isinstance(p, WizardTopLevelContext), f"{script}: the last parent is not the top level")


def equal(S, a, b):
    return S.all(*[S.same(p, q) for p, q in zip(snap(a), snap(b))])


def copies(S, script):
    """copies of the contexts of a run made by the factory"""
    env = variables(S)
    v = S.int("v")
    factory = factory_of(world(), Sev(Severity.ALLOW))
    run = Run(WizardTopLevelContext(factory, S.parse(SCRIPTS[script]), None, state_of(env))).finish()
    S.cover("copies")
    for at, c in enumerate(run.ctxs):
        what = f"{script}: copy of a {type(c).__name__}"
        old = c.state.copy()
        pold = c.parent.state.copy()
        d, e = factory.copy_context(c), factory.copy_context(c)
        st = c.state.copy()
        st.set("x", Value(v))
        f = factory.copy_context(c, st)
        for k in (d, e, f):
            S.check(type(k) is type(c) and k is not c and k.context is c.context, f"{what}: another kind of context")
            S.check(k.factory is factory and k.is_top_level() == c.is_top_level(), f"{what}: another place")
        S.check(equal(S, d.state, old) and equal(S, f.state, st), f"{what}: another state")
        p, q = factory.copy_parent(c), factory.copy_parent(c, st)
        for k in (p, q):
            S.check(type(k) is type(c.parent) and k is not c.parent and k.context is c.parent.context, f"{what}: another kind of parent")
        S.check(equal(S, p.state, old) and equal(S, q.state, st), f"{what}: another state of the parent")
        # the states are of their own
        for k in (st, e.state, p.state):
            k.set("x", Value(v + 1))
            k.set("more", Value("m"))
        S.check(equal(S, c.state, old) and equal(S, c.parent.state, pold), f"{what}: the original changed")
        S.check(equal(S, d.state, old) and S.same(f.state.variables["x"].value, v) and "more" not in f.state.variables, f"{what}: two copies share a state")
        S.check(S.same(q.state.variables["x"].value, v) and "more" not in q.state.variables, f"{what}: a copy of the parent shares a state")
        if isinstance(c, WizardTerminationContext):
            same = [k.is_cancel() == c.is_cancel() and k.is_return() == c.is_return() and S.same(k.message(), c.message()) for k in (d, f)]
            S.check(S.all(*same), f"{what}: another end")
            continue
        # the copy goes on like the original ...
        rest = Run(c)
        rest.ctxs, rest.error = run.ctxs[at:], run.error
        same_run(S, Run(d).finish(), rest, what)
        # ... and with another state in this state
        if isinstance(c, WizardTopLevelContext):
            S.check(S.same(f.exec().state.variables["x"].value, v), f"{what}: the given state is not used")
        if at == 0:
            env["x"] = v
            fresh = WizardTopLevelContext(factory, S.parse(SCRIPTS[script]), None, state_of(env))
            same_run(S, Run(f).finish(), Run(fresh).finish(), what + " with a state")


def jobs(tier):
    q = tier == "quick"
    for s in SCRIPTS:
        yield f"copies {s}", "copies", {"script": s}
        yield f"sources {s}", "sources", {"script": s}
        yield f"state {s}", "state", {"script": s}
        yield f"factory {s}", "factories", {"script": s}
        yield f"two {s}", "interleave", {"script": s, "switches": 3 if q else 4, "runs": 2}
        if not q:
            yield f"three {s}", "interleave", {"script": s, "switches": 3, "runs": 3}
        for t in TARGETS:
            yield f"until {t} {s}", "until", {"script": s, "targets": t}
    for o in ("all", "note", "deselect"):
        yield f"keywords {o}", "keywords", {"order": o}
    for t in TEXTS:
        yield f"sources {t}", "sources", {"script": t}
    yield "defaults", "defaults", {}
