"""C24 Cancel, Return and the end of the script."""

from harness import prog
from harness.c11 import OWN, SOME
from harness.common import ALL_KINDS, WizardTypeError, run_script, sym_value
from harness.prog import WRAPS

BOUNDS = {
    "quick": "Cancel (with and without a message of 0..3 characters), Return and the plain end inside every nest of up to 2 blocks (loops of 2 turns, every If and the "
    "statement guarded by arbitrary booleans at every evaluation), and of 3 blocks out of For-range, While, If, Case without Break with the statement running at one arbitrary moment; messages of every kind; scripts with nothing to do",
    "thorough": "as quick with all blocks at depth 3 and messages of 0..6 characters",
}
ASSUMPTIONS = ["what follows a Cancel without message in its block is a statement that does not start like an expression (see C28)"]
COVERS = {"all": ["cancel", "return", "complete", "message", "no-message", "type-error"]}

ENV = {"i": 0, "j": 0}
LEAVES = {"return": ("return",), "cancel": ("cancel", None), "message": ("cancel", "m")}


def nest(S, first, rest, leaf, mode, maxlen, wraps):
    kinds = ([first] if first else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    env = dict(ENV, m=S.str("m", maxlen, "uni") if leaf == "message" else "x")
    stmt = LEAVES[leaf]
    if mode == "ask":
        leafs = [("if", [(("ask", 99), [*OWN, stmt, ("set", "j", 98)])], None)]
    else:
        env["n"] = 0
        env["k"] = S.int("k")
        leafs = [("inc", "n"), ("if", [(("==", "n", "k"), [*OWN, stmt, ("set", "j", 98)])], None)]
    how, ref, r = prog.compare(S, prog.spine(kinds, leafs), env, what=f"{leaf} in {' in '.join(reversed(kinds))}", fuel=200)
    S.cover(how)
    if how == "cancel":
        S.cover("message" if leaf == "message" else "no-message")
    S.check(S.same({k: v.value for k, v in r.ctx.state.variables.items()}, ref.env), "wrong final state")


def kinds(S, kind):
    """the message must be a string"""
    m = sym_value(S, "m", kind)
    x = S.int("x")
    r = run_script(S, "x = x + 1\nCancel m\nx = 0\n", {"m": m, "x": x})
    if kind == "str":
        S.check(r.error is None and r.ctx.is_cancel(), "must be cancelled")
        S.check(S.same(r.ctx.message(), m), "wrong message")
        S.check(S.same(r.var("x").value, x + 1), "wrong state")
    else:
        S.cover("type-error")
        S.check(isinstance(r.error, WizardTypeError), "a message that is not a string is a type error")


BLANK = ["", "\n", "; nothing", "\n\n ; a\n\t\n;b\n", "\r\n", "If x == y\nEndIf", "While False\nEndWhile", "For k from 1 to 0\nEndFor", 'Exec("")', "x", "x + y\n", "f(x)", "Exec(t)"]


def blank(S, n):
    """scripts with nothing to do, or of a single expression, complete"""
    x, y = S.int("x"), S.int("y")
    r = run_script(S, BLANK[n], {"x": x, "y": y, "t": "; no"}, functions={"f": lambda st, vs: vs[0]})
    S.cover("complete")
    S.check(r.error is None, "unexpected error")
    S.check(r.ctx.is_complete() and not r.ctx.is_return() and not r.ctx.is_cancel(), "must be complete")
    S.check(r.ctx.message() is None, "no message")
    S.check(S.same(r.var("x").value, x) and S.same(r.var("y").value, y), "wrong state")


ENDINGS = {"Return": "is_return", "Cancel": "is_cancel", 'Cancel ""': "is_cancel", "x": "is_complete"}


def only(S, text, before):
    """a script of nothing else than its end"""
    x = S.int("x")
    r = run_script(S, before + text + "\n", {"x": x})
    S.cover("return" if text == "Return" else "complete" if text == "x" else "cancel")
    S.check(r.error is None, "unexpected error")
    for m in ("is_return", "is_cancel", "is_complete"):
        S.check(getattr(r.ctx, m)() == (m == ENDINGS[text]), "wrong end")
    S.check(r.ctx.message() == ("" if text == 'Cancel ""' else None), "wrong message")
    S.check(S.same(r.var("x").value, x), "wrong state")


def jobs(tier):
    q = tier == "quick"
    for leaf in LEAVES:
        yield f"{leaf} alone", "nest", {"first": None, "rest": 0, "leaf": leaf, "mode": "ask", "maxlen": 3 if q else 6, "wraps": WRAPS}
        for w in WRAPS:
            for r in (0, 1):
                yield f"{leaf} ask {w} {r}", "nest", {"first": w, "rest": r, "leaf": leaf, "mode": "ask", "maxlen": 1, "wraps": WRAPS}
            if not q:
                yield f"{leaf} once {w}", "nest", {"first": w, "rest": 2, "leaf": leaf, "mode": "once", "maxlen": 0, "wraps": WRAPS}
            elif w in SOME:
                yield f"{leaf} once {w}", "nest", {"first": w, "rest": 2, "leaf": leaf, "mode": "once", "maxlen": 0, "wraps": SOME}
    for n in range(len(BLANK)):
        yield f"blank {n}", "blank", {"n": n}
    for t in ENDINGS:
        for i, b in enumerate(("", "\n ;\n", "If False\nEndIf\n")):
            yield f"only {t} {i}", "only", {"text": t, "before": b}
    for k in ALL_KINDS:
        yield f"kind {k}", "kinds", {"kind": k}
