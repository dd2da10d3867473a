"""C19 functions of the mod manager."""

from harness.common import (
    ALL_KINDS,
    ManagerModInterface,
    Sev,
    SubPackages,
    Value,
    WizardTypeError,
    evaluate,
    kind_of,
    make_manager_functions,
    run_script,
    sym_value,
)
from wizard.contexts import WizardTerminationContext
from wizard.scriptrunner import WizardScriptRunner
from wizard.utils import make_runner_context_factory, make_top_level_context
from wizard.runner import WizardRunnerState

BOUNDS = {
    "quick": "every manager function with 0..4 arguments, all arguments arbitrary texts of 0..2 characters over the mixed alphabet (the load order fallback an arbitrary integer or boolean), "
    "every result an arbitrary integer, boolean or text; one argument of any other type at every position; texts of 24 characters and integers of any size; DataFileExists with 9 arguments; called from an interpreter and from a script runner",
    "thorough": "as quick with 0..6 arguments and texts of 0..3 characters",
}
ASSUMPTIONS = ["the manager returns values of the documented types"]
COVERS = {"all": ["called", "too-few", "too-many", "bad-type", "fallback", "no-fallback", "varargs"]}

# script name -> method, result, arguments (lower, upper number)
FUNCTIONS = {
    "CompareGameVersion": ("compareGameVersion", "int", 1, 1),
    "CompareSEVersion": ("compareSEVersion", "int", 1, 1),
    "CompareGEVersion": ("compareGEVersion", "int", 1, 1),
    "CompareWBVersion": ("compareWBVersion", "int", 1, 1),
    "GetPluginLoadOrder": ("getPluginLoadOrder", "int", 1, 2),
    "GetPluginStatus": ("getPluginStatus", "int", 1, 1),
    "GetEspmStatus": ("getPluginStatus", "int", 1, 1),
    "GetFilename": ("getFilename", "str", 1, 1),
    "GetFolder": ("getFolder", "str", 1, 1),
    "DataFileExists": ("dataFileExists", "bool", 1, None),
}


def manager(base, result):
    class Manager(base):
        def __init__(self):
            super().__init__()
            self.calls = []
            self.result = result

    def method(name):
        def call(self, *args, **kw):
            self.calls.append((name, args, kw))
            return self.result

        return call

    for name, _, _, _ in FUNCTIONS.values():
        setattr(Manager, name, method(name))
    return Manager()


def call(S, name, args, result, how, env):
    """(value or None, error, calls)"""
    script = f"res = {name}({', '.join(args)})\n"
    if how == "functions":
        m = manager(ManagerModInterface, result)
        r = run_script(S, script, env, functions=make_manager_functions(m, Sev()))
        return (None if r.error is not None else r.var("res").value), r.error, m.calls
    if how == "factory":
        m = manager(ManagerModInterface, result)
        factory = make_runner_context_factory(SubPackages(), m, Sev())
    else:
        m = manager(WizardScriptRunner, result)
        factory = m._factory
    state = WizardRunnerState()
    for k, v in env.items():
        state.set(k, Value(v))
    ctx = make_top_level_context(script, factory, state)
    try:
        while not isinstance(ctx, WizardTerminationContext):
            ctx = ctx.exec()
    except WizardTypeError as e:
        return None, e, m.calls
    return ctx.state.variables["res"].value, None, m.calls


def arguments(S, name, n, how, maxlen):
    method, rkind, lo, hi = FUNCTIONS[name]
    env = {}
    for i in range(n):
        if name == "GetPluginLoadOrder" and i == 1:
            env[f"a{i}"] = S.bool(f"a{i}") if S.choice("flag", [False, True]) else S.int(f"a{i}")
        else:
            env[f"a{i}"] = S.str(f"a{i}", maxlen if i < 2 else 1, "uni", minlen=0 if i < 2 else 1)
    result = {"int": S.int, "bool": S.bool, "str": lambda k: S.str(k, maxlen, "uni")}[rkind]("result")
    value, err, calls = call(S, name, list(env), result, how, env)
    if n < lo or (hi is not None and n > hi):
        S.cover("too-few" if n < lo else "too-many")
        S.check(isinstance(err, WizardTypeError), "a wrong number of arguments is a type error")
        S.check(calls == [], "the manager must not be called")
        return
    S.cover("called")
    if name == "GetPluginLoadOrder":
        S.cover("fallback" if n == 2 else "no-fallback")
    if name == "DataFileExists" and n > 1:
        S.cover("varargs")
    S.check(err is None, "no error expected")
    S.check(len(calls) == 1, "the manager must be called once")
    got, args, kw = calls[0]
    S.check(got == method, "another method of the manager was called")
    S.check(not kw and S.same(list(args), list(env.values())) or S.same(list(args) + list(kw.values()), list(env.values())), "other arguments for the manager")
    S.check(S.same(value, result), "the result is not the result of the manager")


def long_texts(S, name, n, how):
    """long texts, many of them, and large numbers, are handed on as they are"""
    method, rkind, lo, hi = FUNCTIONS[name]
    flag = name == "GetPluginLoadOrder" and n == 2
    env = {f"a{i}": S.int("a1") if flag and i else S.str(f"a{i}", 24, "uni", minlen=24) for i in range(n)}
    if flag:
        S.assume(S.any(env["a1"] > 2**40, env["a1"] < -(2**40)))
    if rkind == "int":
        result = S.int("result")
        S.assume(S.any(result > 2**31, result < -(2**31)))
    else:
        result = S.bool("result") if rkind == "bool" else S.str("result", 24, "uni", minlen=24)
    value, err, calls = call(S, name, list(env), result, how, env)
    S.check(err is None and len(calls) == 1, "the manager must be called once")
    got, args, kw = calls[0]
    S.check(got == method and S.same(list(args) + list(kw.values()), list(env.values())), "other arguments for the manager")
    S.check(S.same(value, result), "the result is not the result of the manager")


def types(S, name, n, at, how):
    """an argument of another type"""
    method, rkind, lo, hi = FUNCTIONS[name]
    env = {f"a{i}": S.int(f"a{i}") if name == "GetPluginLoadOrder" and i == 1 else S.str(f"a{i}", 1, "ascii") for i in range(n)}
    k = S.choice("kind", [k for k in ALL_KINDS])
    env[f"a{at}"] = sym_value(S, "bad", k, 1)
    good = ("int", "bool") if name == "GetPluginLoadOrder" and at == 1 else ("str",)
    value, err, calls = call(S, name, list(env), 1 if rkind == "int" else True if rkind == "bool" else "", how, env)
    if k in good:
        S.check(err is None and len(calls) == 1, "an argument of the right type")
    else:
        S.cover("bad-type")
        S.check(isinstance(err, WizardTypeError), "an argument of another type is a type error")
        S.check(calls == [], "the manager must not be called")


def jobs(tier):
    q = tier == "quick"
    for name, (_, _, lo, hi) in FUNCTIONS.items():
        for how in ("functions", "factory", "runner"):
            for n in range(5 if q else 7):
                yield f"{name} {how} {n}", "arguments", {"name": name, "n": n, "how": how, "maxlen": 2 if q else 3}
            for n in range(lo, hi + 1) if hi else (1, 9):
                yield f"long {name} {how} {n}", "long_texts", {"name": name, "n": n, "how": how}
            for n in range(lo, (hi or (3 if q else 5)) + 1):
                for at in range(n):
                    yield f"types {name} {how} {n} {at}", "types", {"name": name, "n": n, "at": at, "how": how}
