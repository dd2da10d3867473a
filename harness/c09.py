"""C09 If / Elif / Else."""

from harness.c03 import operand, truth
from harness.common import Value, Void, run_script

BOUNDS = {
    "quick": "chains of 1..4 conditions with and without Else, every condition a boolean or an unbounded integer; chains of 1..2 conditions over every kind of "
    "value (ints unbounded, finite doubles, strings of 0..2 characters, lists of 0..2); all nestings of two If statements; chains of 1..3 conditions with any of the branches empty; one chain of 15 branches and one nest of 8",
    "thorough": "as quick with chains of up to 6 conditions (5 with empty branches), and 1..3 conditions over every kind",
}
ASSUMPTIONS = ["what has no value (void) is true, as every value that is not zero or empty"]
COVERS = {"all": ["first", "later", "else", "none", "nested", "effects", "empty-taken", "full-taken", "many"]}

KINDS = ("bool", "int", "float", "str", "subpackage", "list", "void")


def chain(S, kinds, has_else):
    values = [operand(S, f"c{i}", k) for i, k in enumerate(kinds)]
    log = []

    def cond(st, vs):
        log.append(("cond", vs[0].value))
        return Value(values[vs[0].value])

    def body(st, vs):
        log.append(("body", vs[0].value))
        return Value(Void())

    n = len(kinds)
    text = "before = 1\n"
    for i in range(n):
        text += f"{'Elif' if i else 'If'} cond({i})\n  body({i})\n  r = {i}\n  body({i})\n"
    if has_else:
        text += f"Else\n  body({n})\n  r = {n}\n"
    text += "EndIf\nafter = before + 1\n"
    want = []
    taken = None
    for i in range(n):
        want.append(("cond", i))
        if truth(S, values[i], kinds[i]):
            taken = i
            break
    S.cover("first" if taken == 0 else "later" if taken else "else" if has_else else "none")
    if taken is not None:
        want += [("body", taken), ("body", taken)]
    elif has_else:
        taken = n
        want.append(("body", n))
    r = run_script(S, text, functions={"cond": cond, "body": body})
    S.check(r.error is None and r.ctx.is_complete(), "an If must complete")
    S.check(log == want, "wrong conditions or bodies were executed")
    vs = r.vars()
    expect = {"before": 1, "after": 2}
    if taken is not None:
        expect["r"] = taken
    S.check(S.same(vs, expect), "wrong variables after the If")


def empty(S, n, has_else, inside):
    """branches without any statement are branches like the others"""
    cs = [S.bool(f"c{i}") for i in range(n)]
    full = [S.choice(f"f{i}", [True, False]) for i in range(n + has_else)]
    x = S.int("x")
    text = "".join(f"{'Elif' if i else 'If'} ask({i})\n" + (f"  r = {i}\n" if full[i] else "  ; nothing\n\n" if i % 2 else "") for i in range(n))
    if has_else:
        text += "Else\n" + (f"  r = {n}\n" if full[n] else "")
    text += "EndIf\n"
    if inside:
        text = f"If x == x\n{text}x += 1\nElse\nx = -1\nEndIf\n"
    else:
        text += "x += 1\n"
    asked = []

    def ask(st, vs):
        asked.append(vs[0].value)
        return Value(cs[vs[0].value])

    r = run_script(S, text, {"x": x, "r": -1}, functions={"ask": ask})
    at = n
    for i in range(n):
        if cs[i]:
            at = i
            break
    S.cover("empty-taken" if at < len(full) and not full[at] else "full-taken")
    S.check(r.error is None and r.ctx.is_complete(), "an If must complete")
    S.check(asked == list(range(min(at + 1, n))), "wrong conditions were evaluated")
    want = at if at < len(full) and full[at] else -1
    S.check(S.same(r.vars(), {"x": x + 1, "r": want}), "wrong variables after the If")


def many(S, n, has_else):
    """many branches, at most one of which is true"""
    k, x = S.int("k"), S.int("x")
    text = "".join(f"{'Elif' if i else 'If'} k == {i}\n x += {i}\n y = {i}\n" for i in range(n)) + (f"Else\n x += {n}\n y = {n}\n" if has_else else "") + "EndIf\nx += 100\n"
    S.cover("many")
    r = run_script(S, text, {"k": k, "x": x, "y": -1})
    at = n if has_else else -1
    for i in range(n):
        if k == i:
            at = i
            break
    S.check(r.error is None and r.ctx.is_complete(), "an If must complete")
    S.check(S.same(r.vars(), {"k": k, "x": x + 100 + max(at, 0), "y": at}), "wrong variables after the If")


def deep(S, n):
    """n nested Ifs"""
    k = S.int("k")
    text = "".join(f"If k > {i}\n y = {i}\n" for i in range(n)) + "z = 1\n" + "".join(f"Else\n w = {i}\nEndIf\n y += 100\n" for i in reversed(range(n)))
    S.cover("many")
    r = run_script(S, text, {"k": k, "y": -1, "w": -1, "z": 0})
    at = n
    for i in range(n):
        if k <= i:
            at = i
            break
    want = {"k": k, "y": at - 1 + 100 * min(at + 1, n), "w": at if at < n else -1, "z": int(at == n)}
    S.check(r.error is None and r.ctx.is_complete(), "the Ifs must complete")
    S.check(S.same(r.vars(), want), "wrong variables after nested Ifs")


def nested(S, outer_else, inner_at, inner_else):
    a, b, x = S.bool("a"), S.bool("b"), S.int("x")
    inner = "If b\n x += 10\n" + ("Else\n x += 100\n" if inner_else else "") + "EndIf\nx += 1000\n"
    text = "If a\n" + (inner if inner_at == 0 else "x += 1\n")
    if outer_else:
        text += "Else\n" + (inner if inner_at == 1 else "x += 2\n")
    text += "EndIf\nx += 20000\n"
    S.cover("nested")
    r = run_script(S, text, {"a": a, "b": b, "x": x})
    if inner_at == 0 and a or inner_at == 1 and not a and outer_else:
        d = 1000 + (10 if b else 100 if inner_else else 0)
    elif a:
        d = 1
    else:
        d = 2 if outer_else else 0
    S.check(r.error is None and S.same(r.var("x").value, x + d + 20000), "nested If")


def effects(S, n, has_else):
    """what the tested conditions change stays, untested conditions change nothing"""
    x, k = S.int("x"), S.int("k")
    text = "If x++ == k\n r = 0\n"
    for i in range(1, n):
        text += f"Elif x++ == k\n r = {i}\n"
    text += ("Else\n r = 99\n" if has_else else "") + "EndIf\n"
    S.cover("effects")
    r = run_script(S, text, {"x": x, "k": k, "r": -1})
    want, tested = 99 if has_else else -1, n
    for i in range(n):
        if x + i + 1 == k:
            want, tested = i, i + 1
            break
    S.check(r.error is None, "an If must complete")
    S.check(S.same(r.var("r").value, want), "wrong branch")
    S.check(S.same(r.var("x").value, x + tested), "side effects of the conditions")


def jobs(tier):
    q = tier == "quick"
    for e in (False, True):
        for n in range(1, 5 if q else 7):
            yield f"bools {n} {e}", "chain", {"kinds": ["bool"] * n, "has_else": e}
            yield f"ints {n} {e}", "chain", {"kinds": ["int"] * n, "has_else": e}
        for a in KINDS:
            yield f"{a} {e}", "chain", {"kinds": [a], "has_else": e}
            for b in KINDS:
                yield f"{a} {b} {e}", "chain", {"kinds": [a, b], "has_else": e}
                if not q:
                    for c in KINDS:
                        yield f"{a} {b} {c} {e}", "chain", {"kinds": [a, b, c], "has_else": e}
        for i in (0, 1):
            for ie in (False, True):
                if i == 1 and not e:
                    continue
                yield f"nested {e} {i} {ie}", "nested", {"outer_else": e, "inner_at": i, "inner_else": ie}
    for e in (False, True):
        yield f"many {e}", "many", {"n": 15 if q else 40, "has_else": e}
    yield "deep", "deep", {"n": 8 if q else 12}
    for n in range(1, 4 if q else 6):
        for e in (False, True):
            yield f"effects {n} {e}", "effects", {"n": n, "has_else": e}
            for inside in (False, True):
                yield f"empty {n} {e} {inside}", "empty", {"n": n, "has_else": e, "inside": inside}
