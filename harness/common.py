"""Helpers shared by the harnesses.  Only the public API of the package is used;
everything runs both on symbolic inputs and, in replays, on concrete ones."""

import copy

from wizard.contexts import (
    WizardInterpreterContextFactory,
    WizardTerminationContext,
    WizardTopLevelContext,
)
from wizard.errors import (
    WizardError,
    WizardIndexError,
    WizardMissingPackageError,
    WizardMissingPluginError,
    WizardNameError,
    WizardParseError,
    WizardTypeError,
)
from wizard.expr import WizardExpressionVisitor
from wizard.functions import make_basic_functions, make_manager_functions
from wizard.interpreter import WizardInterpreter
from wizard.keywords import WizardKeywordVisitor
from wizard.manager import ManagerModInterface, ManagerUserInterface, SelectOption
from wizard.runner import (
    WizardRunnerExpressionVisitor,
    WizardRunnerKeywordVisitor,
    WizardRunnerState,
)
from wizard.severity import Issue, Severity, SeverityContext
from wizard.state import WizardInterpreterState
from wizard.value import Plugin, SubPackage, SubPackages, Value, Void


class Pkg(SubPackage):
    def __init__(self, name, files=()):
        super().__init__(name)
        self._my_files = list(files)

    @property
    def files(self):
        return iter(self._my_files)


class Sev(SeverityContext):
    def __init__(self, default=None):
        super().__init__()
        self.warnings = []
        if default is not None:
            self.set_default_severity(default)

    def warning(self, text):
        self.warnings.append(text)


class Result:
    def __init__(self, ctx, error, warnings, contexts=None):
        self.ctx = ctx
        self.error = error
        self.warnings = warnings
        self.contexts = contexts or []

    @property
    def state(self):
        return self.ctx.state

    def var(self, name):
        return self.ctx.state.variables[name]

    def vars(self):
        return {k: v.value for k, v in self.ctx.state.variables.items()}


def make_factory(subpackages=None, functions=None, sev=None, runner=False, kvisitor=None):
    sps = subpackages if subpackages is not None else SubPackages()
    sev = sev if sev is not None else Sev()
    fns = make_basic_functions()
    fns.update(functions or {})
    if runner:
        ev = WizardRunnerExpressionVisitor(sps, fns, sev)
        kv = kvisitor or WizardRunnerKeywordVisitor(sps, sev)
    else:
        ev = WizardExpressionVisitor(sps, fns, sev)
        kv = kvisitor or WizardKeywordVisitor(sev)
    return WizardInterpreterContextFactory(ev, kv, sev)


def run_script(
    S,
    script,
    variables=None,
    subpackages=None,
    functions=None,
    sev=None,
    runner=False,
    state=None,
    catch=(WizardError,),
    pick=None,
    kvisitor=None,
    keep=False,
    subs=None,
):
    """Run a script to its termination context.  Errors in `catch` are returned.
    `pick(ctx)` may replace a context before it is executed."""
    sev = sev if sev is not None else Sev()
    factory = make_factory(subpackages, functions, sev, runner, kvisitor)
    if state is None:
        state = WizardRunnerState() if runner else WizardInterpreterState()
    for k, v in (variables or {}).items():
        state.set(k, v if isinstance(v, Value) else Value(v))
    ctx = WizardTopLevelContext(factory, S.parse(script, subs), None, state)
    seen = []
    try:
        while not isinstance(ctx, WizardTerminationContext):
            if keep:
                seen.append(ctx)
            if pick is not None:
                ctx = pick(ctx)
            ctx = ctx.exec()
    except catch as e:
        return Result(ctx, e, sev.warnings, seen)
    return Result(ctx, None, sev.warnings, seen)


def evaluate(S, expr, variables=None, **kw):
    """(value, None) or (None, error) of one expression, by running `r = expr`."""
    res = run_script(S, "res = " + expr + "\n", variables, **kw)
    if res.error is not None:
        return None, res.error
    return res.var("res"), None


def sym_value(S, name, kind, maxlen=2, domain="ascii", bound=None):
    """A value of the given kind, with symbolic content."""
    if kind == "bool":
        return S.bool(name)
    if kind == "int":
        if bound is None:
            return S.int(name)
        return S.int(name, -bound, bound)
    if kind == "float":
        return S.float(name)
    if kind == "str":
        return S.str(name, maxlen, domain)
    if kind == "subpackage":
        return Pkg("P", ["a.esp"])
    if kind == "subpackages":
        return SubPackages([Pkg("P", ["a.esp"]), Pkg("Q", [])])
    if kind == "void":
        return Void()
    raise ValueError(kind)


NUMERIC = ("bool", "int", "float")
BASIC = ("bool", "int", "float", "str")
ALL_KINDS = ("bool", "int", "float", "str", "subpackage", "subpackages", "void")


def kind_of(v):
    if isinstance(v, Void):
        return "void"
    if isinstance(v, SubPackages):
        return "subpackages"
    if isinstance(v, SubPackage):
        return "subpackage"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "str"
    return "?"
