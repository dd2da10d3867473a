"""C30 broken parts of a script are errors when they are reached, never skipped."""

from harness import prog
from harness.common import Pkg, Sev, Severity, SubPackages, Value, Void, WizardParseError, run_script
from harness.prog import WRAPS, Stop

BOUNDS = {
    "quick": "about 25 broken statements that a reader can tell from what follows, and about 25 that also break the block they are in, alone, in every block and in nests of 2 blocks out of For, For in, "
    "While, If, Else, Cases and Default (loops of 2 turns, arbitrary conditions at every evaluation), followed by an assignment, a keyword, a block and the end of the block",
    "thorough": "as quick in nests of 3 blocks out of For-range, While, If and Case without Break",
}
ASSUMPTIONS = [
    "what the parser repairs by leaving out or adding a single token, and characters that belong to no token, are outside the claim",
    "a statement continues on the next line where the language allows it, so a broken statement is followed by one that cannot continue it",
]
COVERS = {"all": ["reached", "not-reached", "second-turn", "block", "early"]}
OPTIONS = {"max_steps": 5000000}

# statements whose extent is clear: only an error when they are reached
LOCAL = {
    "dot assign": "a .= False",
    "paren": "z = (1 +",
    "index": "z = s[",
    "empty index": "z = s[]",
    "dot": "z = s.",
    "call statement": "len(",
    "call comma": "z = len(s,)",
    "exec": "Exec(",
    "while": "While\nEndWhile",
    "while half": "While x ==\nEndWhile",
    "for": "For\nlog(90, i, j)\nEndFor",
    "for in": "For k in\nEndFor",
    "for from": "For k from 1\nEndFor",
    "for to": "For k from 1 to\nEndFor",
    "for by": "For k from 1 to 2 by\nEndFor",
    "for name": "For in s\nlog(90, i, j)\nEndFor",
    "many": "SelectMany\nEndSelect",
    "options": 'SelectOne "d", "a", "b"\nCase "a"\nlog(90, i, j)\nBreak\nEndSelect',
    "options 2": 'SelectMany "d", "a"\nCase "a"\nlog(90, i, j)\nBreak\nEndSelect',
}
# the others: an error when they are reached, or before that
BLOCK = {
    "no value": "z =",
    "plus": "z = 1 +",
    "equal": "z = x ==",
    "not": "z = not",
    "compound": "z +=",
    "close": ")",
    "bracket": "]",
    "assign": "= 3",
    "return": "Return )",
    "break": "Break )",
    "EndIf": "EndIf",
    "EndFor": "EndFor",
    "EndWhile": "EndWhile",
    "EndSelect": "EndSelect",
    "Else": "Else",
    "Elif": "Elif x == 1",
    "Case": 'Case "a"',
    "Default": "Default",
    "note EndIf": 'Note "a"\nEndIf',
    "note Else": 'Note "a"\nElse',
    "note close": 'Note "a" )',
    "select EndWhile": 'SelectAll\nEndWhile',
    "late case": 'SelectOne "d", "a", "b", "c"\nDefault\nlog(90, i, j)\nBreak\nCase "a"\nlog(91, i, j)\nBreak\nEndSelect',
    "two defaults": 'SelectOne "d", "a", "b", "c"\nDefault\nlog(90, i, j)\nBreak\nDefault\nlog(91, i, j)\nBreak\nEndSelect',
    "two elses": 'If False\nElse\nlog(90, i, j)\nElse\nlog(91, i, j)\nEndIf',
    "broken case": 'SelectOne "d", "a", "b", "c"\nCase "a"\nlog(90, i, j)\n)\nlog(91, i, j)\nBreak\nEndSelect',
    "broken body": 'If True\nlog(90, i, j)\n)\nlog(91, i, j)\nEndIf',
}
# tokens that would close or continue these blocks
MATCH = {"EndIf": ("if", "else"), "EndFor": ("for", "in"), "EndWhile": ("while",), "EndSelect": ("case", "fall", "default"), "Else": ("if", "else"), "Elif": ("if", "else"),
         "Case": ("case", "fall", "default"), "Default": ("case", "fall", "default"), "note EndIf": ("if", "else"), "note Else": ("if", "else"), "select EndWhile": ("while",)}
AFTER = {
    "assign": [("set", "x", 3)],
    "for": [("for", "k", 1, 2, None, [("set", "x", ("+", "x", "k"))]), ("set", "x", ("+", "x", 1))],
}



def run(S, outer, kind, after, turns=2):
    plain = LOCAL.get(kind) or BLOCK[kind]

    def fail(S_, ref):
        raise Stop("error")

    p = prog.spine(outer, [("set", "x", 2), ("stmt", plain, fail)] + AFTER[after], turns)
    script = prog.text(p)
    line = script.count("\n", 0, script.index(plain)) + 1
    env = {"i": 0, "j": 0, "x": S.int("x"), "s": S.str("s", 1)}
    d = prog.Decisions(S)
    log = []
    ask = d.reader(log)
    fns = {
        "log": lambda st, vs: (log.append(tuple(v.value for v in vs)), Value(Void()))[1],
        "ask": lambda st, vs: Value(ask(vs[0].value)),
    }
    r = run_script(S, script, env, functions=fns, subpackages=SubPackages([Pkg("P", ["a.esp"])]), sev=Sev(Severity.ALLOW))
    ref = prog.Ref(S, env, None, 200)
    ref.ask = d.reader(ref.log)
    how, _ = ref.run(p)
    what = f"{kind} in {outer}"
    reached = how == "error"
    S.cover("reached" if reached else "not-reached")
    if r.error is not None:
        S.check(isinstance(r.error, WizardParseError), f"{what}: must be a parse error")
    if reached:
        S.check(r.error is not None, f"{what}: the broken statement was skipped")
    # a block after the broken statement hides where the block around it ends
    if kind in LOCAL and after == "assign":
        S.check((r.error is not None) == reached, f"{what}: an error although it is not reached")
        S.check(len(log) == len(ref.log) and S.same(log, ref.log), f"{what}: other statements were executed")
        S.check(S.same(r.vars(), ref.env), f"{what}: the statements before have other effects")
        if reached:
            S.check(r.error.line == line, f"{what}: wrong line")
    else:
        S.cover("block")
        # what belongs to the broken statement itself may have been executed
        own = [e for e in log if e[0] not in (90, )]
        S.check(S.all(*[S.any(e[0] == "ask", e[0] != 91) for e in log]), f"{what}: executed beyond the broken place")
        if r.error is not None:
            S.check(len(own) <= len(ref.log), f"{what}: more statements were executed")
            if len(own) < len(ref.log):
                S.cover("early")
            S.check(S.same(own, ref.log[: len(own)]), f"{what}: other statements were executed")
        else:
            S.check(len(log) == len(ref.log) and S.same(log, ref.log), f"{what}: other statements were executed")
            S.check(S.same(r.vars(), ref.env), f"{what}: other variables at the end")
    if sum(1 for e in ref.log if e[0] == "ask") > 1:
        S.cover("second-turn")


def nest(S, first, rest, kind, after, wraps=WRAPS, turns=2):
    wraps = [w for w in wraps if w not in MATCH.get(kind, ())]
    outer = ([first] if first else []) + [S.choice(f"w{d}", wraps) for d in range(rest)]
    run(S, outer, kind, after, turns)


def unterminated(S, before):
    """a string literal without its end is skipped by the lexer, with the rest of the script"""
    S.cover("reached")
    r = run_script(S, f'x = 2\n{before}"abc\nx = 3\n', {"s": S.str("s", 1)})
    S.check(isinstance(r.error, WizardParseError), "the string literal without end was skipped")


def jobs(tier):
    yield "unterminated", "unterminated", {"before": ""}
    yield "unterminated value", "unterminated", {"before": "y = "}
    q = tier == "quick"
    some = ("for", "while", "if", "fall")
    for kind in [*LOCAL, *BLOCK]:
        for after in AFTER:
            yield f"{kind} alone {after}", "nest", {"first": None, "rest": 0, "kind": kind, "after": after}
            yield f"{kind} in {after}", "nest", {"first": None, "rest": 1, "kind": kind, "after": after}
        for w in WRAPS:
            if w not in MATCH.get(kind, ()):
                yield f"{kind} in {w}", "nest", {"first": w, "rest": 1, "kind": kind, "after": "assign"}
                if not q and w in some:
                    yield f"{kind} in {w} 2", "nest", {"first": w, "rest": 2, "kind": kind, "after": "assign", "wraps": some}
