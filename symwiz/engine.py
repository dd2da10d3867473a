"""Path-exploring engine: z3-decided forks, exhaustive DFS by re-execution.

A harness function is executed again and again.  Every time the executed code
(harness or /repo code) needs the truth value of a symbolic condition, the
engine asks z3 which outcomes are feasible under the current path condition and
explores all of them.  A `check` asks z3 for a value of the inputs on the current
path that breaks the asserted condition.  When the DFS tree is exhausted without
such a value, the assertion holds for all values inside the stated bounds.
"""

from __future__ import annotations

import random
import time
from typing import Any, Callable

import z3


class EngineSignal(BaseException):
    """Base of the control-flow signals; never caught by code under test."""


class PathAbort(EngineSignal):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(EngineSignal):
    """The code under test did something the encoding cannot express."""


class Inconclusive(EngineSignal):
    """Solver gave up."""


class StepLimit(EngineSignal):
    """The path executed more instrumented function entries than allowed."""


class CounterExample(EngineSignal):
    def __init__(self, msg: str, assignment: dict[str, Any]):
        super().__init__(msg)
        self.msg = msg
        self.assignment = assignment


class Node:
    __slots__ = ("cond", "alts", "cur", "level", "forced", "info", "val")

    def __init__(self, cond, cur, alts, level, forced, info=None):
        self.val = None
        self.cond = cond
        self.cur = cur
        self.alts = alts
        self.level = level
        self.forced = forced
        self.info = info


class Stats:
    def __init__(self) -> None:
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_syntactic = 0
        self.checks_solver = 0
        self.covers: dict[str, int] = {}
        self.cuts: dict[str, int] = {}
        self.functions: dict[str, int] = {}
        self.concretised = 0
        self.refinements = 0

    def as_dict(self) -> dict[str, Any]:
        return dict(self.__dict__)


_TRUE = z3.BoolVal(True)


class Engine:
    current: "Engine | None" = None

    def __init__(
        self,
        query_timeout_ms: int = 60000,
        max_steps: int = 200000,
        deadline: float | None = None,
        max_paths: int = 2_000_000,
    ):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.query_timeout_ms = query_timeout_ms
        self.stack: list[Node] = []
        self.pos = 0
        self.model: z3.ModelRef | None = None
        self.stats = Stats()
        self.max_steps = max_steps
        self.steps = 0
        self.deadline = deadline
        self.max_paths = max_paths
        self.inputs: dict[str, Callable[[z3.ModelRef], Any]] = {}
        self.ufs: dict[int, tuple[Any, tuple[Any, ...], Callable[..., Any], Any]] = {}
        self.axioms: list[Any] = []
        self.hashed: list[tuple[Any, int]] = []
        self.decided: dict[int, bool] = {}  # by id of the condition, on this path
        self.exact: dict[int, Any] = {}  # integers that are 64-bit vectors
        self.fresh = 0
        self._kids: dict[int, bool] = {}
        self.sample: dict[str, Any] | None = None

    # -- path bookkeeping -------------------------------------------------
    def _begin(self) -> None:
        self.pos = 0
        self.steps = 0
        self.inputs = {}
        self.ufs = {}
        self.hashed = []
        self.decided = {}
        self.exact = {}
        self.fresh = 0
        self.model = None

    @property
    def live(self) -> bool:
        return self.pos >= len(self.stack)

    def _backtrack(self) -> bool:
        while self.stack:
            node = self.stack[-1]
            if node.alts:
                self.solver.pop(self.solver.num_scopes() - node.level)
                node.cur = node.alts.pop(0)
                self.solver.push()
                self.solver.add(self._node_cond(node))
                return True
            self.stack.pop()
        self.solver.pop(self.solver.num_scopes())
        return False

    def _node_cond(self, node: Node):
        if node.info == "choice":
            return node.cond == node.cur
        return node.cond if node.cur else z3.Not(node.cond)

    def explore(self, fn: Callable[[], None]) -> None:
        prev = Engine.current
        Engine.current = self
        try:
            while True:
                self._begin()
                try:
                    fn()
                    self.stats.paths += 1
                    if self.sample is None or self.stats.paths in (7, 50):
                        try:
                            self.sample = self.assignment(self.get_model())
                        except EngineSignal:
                            pass
                except PathAbort:
                    self.stats.aborted += 1
                if self.stats.paths + self.stats.aborted > self.max_paths:
                    raise Inconclusive(f"more than {self.max_paths} paths")
                if self.deadline is not None and time.monotonic() > self.deadline:
                    raise Inconclusive("deadline reached before the path tree was exhausted")
                # at base level with no decisions everything asserted stays: drop it
                if not self._backtrack():
                    return
        finally:
            Engine.current = prev

    # -- solver -----------------------------------------------------------
    def _query(self, *extra) -> z3.CheckSatResult:
        t = time.perf_counter()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            s = z3.SolverFor("ALL") if False else z3.Then("simplify", "solve-eqs", "smt").solver()
            s.set("timeout", self.query_timeout_ms)
            s.add(self.solver.assertions())
            for e in extra:
                s.add(e)
            r = s.check()
            if r == z3.sat:
                self._last = s.model()
        elif r == z3.sat:
            self._last = self.solver.model()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            raise Inconclusive(f"solver answered unknown: {self.solver.reason_unknown()}")
        return r

    def get_model(self) -> z3.ModelRef:
        if self.model is None:
            if self._query() == z3.unsat:
                raise PathAbort()
            self.model = self._last
        return self.model

    def _holds_in_model(self, cond) -> bool | None:
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def add(self, cond) -> None:
        """Assert a fact on the current path (no feasibility check)."""
        if not self.live:
            return
        if self._holds_in_model(cond) is not True:
            self.model = None
        self.solver.add(cond)

    def assume(self, cond) -> None:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        if not self.live:
            return
        self.add(cond)
        if self.model is None:
            self.get_model()

    def fork(self, cond) -> bool:
        """Decide a symbolic condition, exploring both outcomes when feasible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        flip = z3.is_not(cond)
        key = (cond.arg(0) if flip else cond).get_id()
        known = self.decided.get(key)
        if known is not None:
            return known != flip
        r = self._fork(cond)
        # the node of the decision keeps the condition, hence its id, alive
        self.decided[key] = r != flip
        return r

    def _fork(self, cond) -> bool:
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if node.info is not None or not node.cond.eq(cond):
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            return node.cur
        self._tick()
        self.stats.forks += 1
        m = self.get_model()
        hint = self._holds_in_model(cond)
        ncond = z3.Not(cond)
        if hint is None:
            if self._query(cond) == z3.sat:
                hint = True
                self.model = self._last
            else:
                hint = False
        # `hint` side is feasible; is the other?
        other_ok = self._query(ncond if hint else cond) == z3.sat
        level = self.solver.num_scopes()
        if other_ok:
            self.stack.append(Node(cond, hint, [not hint], level, False))
            self.solver.push()
            self.solver.add(cond if hint else ncond)
        else:
            self.stack.append(Node(cond, hint, [], level, True))
        self.pos += 1
        return hint

    def choose(self, var, n: int) -> int:
        """n-way decision on a fresh integer variable in [0, n)."""
        if self.pos < len(self.stack):
            node = self.stack[self.pos]
            if node.info != "choice":
                raise Unsupported("non-deterministic re-execution")
            self.pos += 1
            return node.cur
        self._tick()
        self.stats.forks += 1
        level = self.solver.num_scopes()
        node = Node(var, 0, list(range(1, n)), level, False, "choice")
        self.stack.append(node)
        self.solver.push()
        self.solver.add(var == 0)
        self.model = None
        self.pos += 1
        return 0

    def concretise(self, term, limit: int = 400) -> Any:
        """Fork over every feasible value of an integer/char term."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        self.stats.concretised += 1
        for _ in range(limit):
            if self.pos < len(self.stack):
                v = self.stack[self.pos].val
                if v is None:
                    raise Unsupported("non-deterministic re-execution")
            else:
                v = self.get_model().eval(term, model_completion=True).as_long()
            at = self.pos
            cond = z3.simplify(term == v)
            if z3.is_true(cond) or z3.is_false(cond):
                raise Unsupported("a value that is decided by its term")
            taken = self._fork(cond)
            self.decided[cond.get_id()] = taken
            self.stack[at].val = v
            if taken:
                return v
        raise Unsupported("value with too many feasible values needed at a C boundary")

    def _tick(self) -> None:
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Inconclusive("deadline reached before the path tree was exhausted")

    def step(self, name: str) -> None:
        f = self.stats.functions
        f[name] = f.get(name, 0) + 1
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit(f"more than {self.max_steps} calls on one path")

    # -- uninterpreted functions with lazily added concrete axioms ----------
    def uf(self, name: str, args: tuple[Any, ...], ret_sort, pyfunc, decoders, encode):
        f = z3.Function(name, *[a.sort() for a in args], ret_sort)
        app = f(*args)
        self.ufs[app.get_id()] = (app, args, pyfunc, (decoders, encode))
        return app

    def _refine(self, model) -> list[Any]:
        """Axioms for uninterpreted applications the model got wrong."""
        out = []
        for app, args, pyfunc, (decoders, encode) in list(self.ufs.values()):
            vals = [d(model.eval(a, model_completion=True)) for d, a in zip(decoders, args)]
            cond = z3.And(*[a == model.eval(a, model_completion=True) for a in args])
            try:
                real = encode(pyfunc(*vals))
            except (ArithmeticError, ValueError):
                out.append(z3.Not(cond))
                continue
            got = model.eval(app, model_completion=True)
            if not z3.is_true(z3.simplify(got == real)):
                out.append(z3.Implies(cond, app == real))
        return out

    def _guided(self) -> z3.ModelRef | None:
        """A last attempt at a model: arguments of the functions fixed to values
        around which functions tend to differ."""
        args = {a.get_id(): a for _, args, _, _ in self.ufs.values() for a in args if not z3.is_app_of(a, z3.Z3_OP_FPA_NUM)}
        rng = random.Random(1)
        for _ in range(80):
            pins = []
            for a in args.values():
                if a.sort() == z3.IntSort():
                    pins.append(a == rng.choice([0, 1, -1, 2, -2, 3, -3, 5, -7, 10, 15, 100, 2**53 + 1]))
                elif z3.is_fp(a):
                    pins.append(a == z3.FPVal(rng.choice([0.0, 0.5, -0.5, 1.0, 1.5, -1.5, 2.0, 2.5, -2.5, 0.1, -3.7, 7.25, 1e16, -1e300]), a.sort()))
            self.solver.push()
            try:
                self.solver.add(*pins)
                for _ in range(4):
                    if self._query() == z3.unsat:
                        break
                    m = self._last
                    ax = self._refine(m)
                    if not ax:
                        return m
                    self.stats.refinements += 1
                    self.solver.add(*ax)
            finally:
                self.solver.pop()
        return None

    def refined_model(self, *extra) -> z3.ModelRef | None:
        """A model of path+extra in which every UF application is concrete-correct."""
        self.solver.push()
        try:
            self.solver.add(*extra)
            for _ in range(60):
                if self._query() == z3.unsat:
                    return None
                m = self._last
                ax = self._refine(m)
                if not ax:
                    return m
                self.stats.refinements += 1
                self.solver.add(*ax)
            m = self._guided()
            if m is not None:
                return m
            raise Inconclusive("no concrete-correct model within 60 refinements")
        finally:
            self.solver.pop()

    # -- inputs & assertions ------------------------------------------------
    def assignment(self, model) -> dict[str, Any]:
        return {k: f(model) for k, f in self.inputs.items()}

    def check(self, cond, msg: str) -> None:
        """cond: z3 Bool (or python bool)."""
        if not self.live:
            return
        self._tick()
        self.stats.checks += 1
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.checks_syntactic += 1
            return
        self.stats.checks_solver += 1
        neg = z3.Not(cond)
        if self._query(neg) == z3.unsat:
            return
        m = self.refined_model(neg)
        if m is not None:
            raise CounterExample(msg, self.assignment(m))

    def fail(self, msg: str) -> None:
        m = self.refined_model()
        if m is None:
            raise PathAbort()
        raise CounterExample(msg, self.assignment(m))
