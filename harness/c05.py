"""C05 operator precedence and grouping."""

from harness.common import Value, evaluate

BOUNDS = {
    "all": "every pair of binary operators (two spellings of the logical ones, case-insensitive forms excluded) over three "
    "operands and, in the thorough tier, every triple over four; every unary operator in front of every binary one; operands over all integers "
    "(booleans for the logical operators); 36 (thorough: 360) orders of 6 operators of different levels; 3 to 6 operators of one level"
}
ASSUMPTIONS = [
    "mixes of `and` with `or` (no documented relative precedence) are outside the claim",
    "a unary operator in front of an indexed operand is outside the claim (the grammar applies the unary operator first)",
    "the parse of the fixed expression texts is done by the real parser on concrete text",
]
COVERS = {"all": ["pair", "unary", "postfix", "ladder", "level"], "thorough": ["pair", "unary", "postfix", "ladder", "level", "triple"]}

LEVELS = [["^"], ["*", "/", "%"], ["+", "-"], [">", ">="], ["<", "<="], ["==", "!="], ["or", "|", "and", "&"]]
PREC = {op: len(LEVELS) - i for i, l in enumerate(LEVELS) for op in l}
LOGIC = {"or": "or", "|": "or", "and": "and", "&": "and"}
OPS = list(PREC)
# orderings are not mixed with one another: `a < b > c` has no documented grouping
ORD = (">", ">=", "<", "<=")


def group(ops):
    """The fully parenthesised text of `a ops[0] b ops[1] c ...`."""
    names = "abcdefgh"
    out = [names[0]]
    pend = []

    def reduce():
        r, op, l = out.pop(), pend.pop(), out.pop()
        out.append(f"({l} {op} {r})")

    for op, n in zip(ops, names[1:]):
        while pend and PREC[pend[-1]] >= PREC[op]:
            reduce()
        pend.append(op)
        out.append(n)
    while pend:
        reduce()
    return out[0]


def allowed(ops):
    logic = {LOGIC[o] for o in ops if o in LOGIC}
    return len(logic) <= 1 and sum(o in ORD for o in ops) <= 1


def outcome(S, text, vs):
    try:
        v, err = evaluate(S, text, vs)
    except ZeroDivisionError:
        return "zero", None
    except OverflowError:
        return "overflow", None
    if err is not None:
        return type(err).__name__, None
    return "ok", v.value


def compare(S, flat, grouped, vs):
    k1, v1 = outcome(S, flat, vs)
    k2, v2 = outcome(S, grouped, vs)
    S.check(k1 == k2, f"{flat} and {grouped} end differently")
    if k1 == "ok":
        S.check(S.same(v1, v2), f"{flat} is not {grouped}")


def operands(S, n, ops):
    if "^" in ops or "/" in ops or "%" in ops:
        return {x: S.int(x, 0, 3) for x in "abcd"[:n]}
    return {x: S.int(x) for x in "abcd"[:n]}


def chain(S, ops):
    flat = "a"
    for op, n in zip(ops, "bcd"):
        flat += f" {op} {n}"
    S.cover("pair" if len(ops) == 2 else "triple")
    compare(S, flat, group(ops), operands(S, len(ops) + 1, ops))


def ladder(S, order, which):
    """one operator of every level, in any order of the levels"""
    ops = [LEVELS[i][which % len(LEVELS[i])] for i in order]
    names = "abcdefgh"
    flat = names[0] + "".join(f" {op} {n}" for op, n in zip(ops, names[1:]))
    vals = [S.int(x, 1, 2) for x in names[:2]] + [S.choice("c", [3, 0])] + [1, 2, 3, 2, 1]
    S.cover("ladder")
    compare(S, flat, group(ops), dict(zip(names, vals)))


def same_level(S, level, n):
    """n operators of one level group from left to right"""
    ops = [S.choice(f"o{i}", LEVELS[level]) for i in range(n)]
    names = "abcdefgh"
    flat = names[0] + "".join(f" {op} {x}" for op, x in zip(ops, names[1:]))
    hard = level < 2
    vals = {x: S.int(x) if not hard else (2 if i else 3) if level == 0 else i + 2 for i, x in enumerate(names[: n + 1])}
    S.cover("level")
    compare(S, flat, group(ops), vals)


def unary(S, un, op):
    vs = operands(S, 2, [op])
    S.cover("unary")
    compare(S, f"{un} a {op} b", f"(({un} a) {op} b)", vs)
    compare(S, f"a {op} {un} b", f"(a {op} ({un} b))", vs)


def postfix(S, un):
    s = S.str("s", 2, minlen=2)
    k = S.int("k", 0, 1)
    S.cover("postfix")
    vs = {"s": s, "k": k}
    compare(S, "s[k] + s[0]", "((s[k]) + (s[0]))", vs)
    compare(S, "s[k] == s[1]", "((s[k]) == (s[1]))", vs)
    compare(S, "s.len() + k * 2", "((s.len()) + (k * 2))", vs)
    compare(S, "not s.len()", "(not (s.len()))", vs)
    compare(S, "s[k].len() + s[k:k+1].len()", "(((s[k]).len()) + ((s[k:(k+1)]).len()))", vs)
    compare(S, "-s.len() + k", "((-(s.len())) + k)", vs)
    compare(S, "k + s[k:].len()", "(k + ((s[k:]).len()))", vs)


def jobs(tier):
    for a in OPS:
        for b in OPS:
            if allowed([a, b]):
                yield f"{a} {b}", "chain", {"ops": [a, b]}
                if tier != "quick":
                    for c in OPS:
                        if allowed([a, b, c]):
                            yield f"{a} {b} {c}", "chain", {"ops": [a, b, c]}
    import itertools

    # the orderings have two levels: only one of them at a time
    for n, order in enumerate(itertools.permutations([0, 1, 2, 3 + (tier == "quick"), 5, 6])):
        if n % (20 if tier == "quick" else 2) == 0:
            yield f"ladder {order}", "ladder", {"order": order, "which": n // 20}
    for level, n in ((0, 3), (1, 4), (2, 6)):
        yield f"level {level}", "same_level", {"level": level, "n": n if tier != "quick" else n - (level > 0)}
    for u in ("-", "not", "!"):
        for op in OPS:
            yield f"{u} {op}", "unary", {"un": u, "op": op}
    yield "postfix", "postfix", {"un": ""}
