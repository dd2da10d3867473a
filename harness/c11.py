"""C11 Break and Continue."""

from harness import prog
from harness.prog import LOOPS, WRAPS

BOUNDS = {
    "quick": "Break and Continue inside every nest of up to 3 blocks out of For-range, For-in, While, If, Else, a Case with and without Break at its "
    "end, and Default; loops of 2 turns; every If and the statement itself are guarded by arbitrary booleans at every evaluation up to depth 2, and "
    "at depth 3 the statement runs at one arbitrary moment; loops over symbolic ranges with Break/Continue at a symbolic value; Break and Continue in each of 2 or 3 chosen cases in a loop of 2 turns",
    "thorough": "as quick with 3 turns, arbitrary booleans at depth 3 (2 turns, second block a For-range, While, If or Case without Break) and depth 4 (For-range, While, If, Case without Break) with one arbitrary moment",
}
ASSUMPTIONS = ["Break inside a block of Exec() is covered by C20"]
COVERS = {"all": ["break", "continue", "bad-break", "bad-continue", "complete", "two-loops", "value", "chosen"]}

SOME = ("for", "while", "if", "fall")
ENV = {"i": 0, "j": 0, "q": 0}
# a change in the innermost block
OWN = [("set", "q", ("+", ("*", "q", 2), 7))]


def leaf_stmts(leaf, mode):
    if mode == "ask":
        return [("if", [(("ask", 99), [*OWN, (leaf,), ("log", 98)])], None)]
    return [("inc", "n"), ("if", [(("==", "n", "k"), [*OWN, (leaf,), ("log", 98)])], None)]


def nest(S, first, rest, leaf, mode, turns, second=None, wraps=WRAPS):
    kinds = [first] + ([second] if second else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    env = dict(ENV)
    if mode == "once":
        env["n"] = 0
        env["k"] = S.int("k")
    how, ref, _ = prog.compare(S, prog.spine(kinds, leaf_stmts(leaf, mode), turns), env, what=f"{leaf} in {' in '.join(reversed(kinds))}", fuel=200)
    S.cover(how)
    S.cover(leaf)
    if sum(k in LOOPS for k in kinds) > 1:
        S.cover("two-loops")


def chosen(S, leaf, at, ncase, mask):
    """a SelectMany with every case chosen, in a loop: what follows in the Select after Break or Continue in one of its cases"""
    names = "ABC"[:ncase]
    own = [("if", [(("ask", 99), [*OWN, (leaf,), ("log", 98)])], None)]
    cs = []
    for n, x in enumerate(names):
        body = [("log", n)] + (own if n == at else []) + [("inc", "q")] + ([("break",)] if mask >> n & 1 else [])
        cs.append((("str", x), body))
    opts = [(("str", "|" + x), ("str", "t"), ("str", "")) for x in names]
    dflt = S.choice("default", [None, [("log", 50)], [("log", 50)] + own])
    sel = ("select", S.choice("many", [True, False]), ("str", "d"), opts, cs, dflt)
    p = [("for", "i", 0, 1, None, [("log", 10), sel, ("log", 11)]), ("log", 12)]

    def choose(many, options, defaults):
        return list(names) if many else [names[0]]

    S.cover("chosen")
    prog.compare(S, p, dict(ENV), choose, what=f"{leaf} in case {at} of {ncase}", fuel=200)


def value(S, outer, inner, where, leaf):
    """two nested loops over symbolic ranges; the statement runs where a loop variable has a symbolic value"""
    a, b = S.int("a", -50, 50), S.int("b", -50, 50)
    S.assume(b - a < 3)
    k = S.int("k")
    var = "i" if where == "outer" else S.choice("var", ["i", "j"])
    guard = [("if", [(("==", var, "k"), [*OWN, (leaf,)])], None)]

    def loop(kind, v, lo, hi, body):
        if kind == "for":
            return [("for", v, lo, hi, None, body)]
        if kind == "down":
            return [("for", v, hi, lo, ("-", 0, 1), body)]
        return [("set", v, ("-", lo, 1)), ("while", ("<", v, hi), [("inc", v)] + body)]

    body = [("log", 1)] + (guard if where == "inner" else []) + [("log", 2)]
    body = (guard if where == "outer" else []) + [("log", 3)] + loop(inner, "j", "a", "i", body) + [("log", 4)]
    p = loop(outer, "i", "a", "b", body) + [("log", 5)]
    S.cover("value")
    prog.compare(S, p, {**ENV, "a": a, "b": b, "k": k}, what=f"{leaf} in {outer}/{inner} ({where})", fuel=200)


def jobs(tier):
    q = tier == "quick"
    for leaf in ("break", "continue"):
        yield f"{leaf} alone", "alone", {"leaf": leaf}
        for n in (2, 3):
            for at in range(n):
                for mask in range(2**n):
                    yield f"{leaf} chosen {n} {at} {mask}", "chosen", {"leaf": leaf, "at": at, "ncase": n, "mask": mask}
        for w in WRAPS:
            for r in (0, 1):
                yield f"{leaf} ask {w} {r}", "nest", {"first": w, "rest": r, "leaf": leaf, "mode": "ask", "turns": 2 if q else 3}
            yield f"{leaf} once {w} 2", "nest", {"first": w, "rest": 2, "leaf": leaf, "mode": "once", "turns": 2 if q else 3}
            if not q:
                for w2 in SOME:
                    yield f"{leaf} ask {w} {w2} 1", "nest", {"first": w, "second": w2, "rest": 1, "leaf": leaf, "mode": "ask", "turns": 2}
                for w2 in SOME:
                    if w in SOME:
                        yield f"{leaf} once {w} {w2} 2", "nest", {"first": w, "second": w2, "rest": 2, "leaf": leaf, "mode": "once", "turns": 2, "wraps": SOME}
        for o in ("for", "down", "while"):
            for i in ("for", "while") if q else ("for", "down", "while"):
                for where in ("inner", "outer"):
                    yield f"{leaf} value {o} {i} {where}", "value", {"outer": o, "inner": i, "where": where, "leaf": leaf}


def alone(S, leaf):
    how, _, _ = prog.compare(S, [("log", 1)] + leaf_stmts(leaf, "ask") + [("log", 2)], ENV, what=f"{leaf} outside")
    S.cover(how)
