"""C08 literals: strings with escape sequences, integers, decimals, constants."""

from harness.common import Pkg, SubPackages, Value, kind_of, run_script

BOUNDS = {
    "quick": "string literals of 0..2 characters over the mixed alphabet (ASCII, Latin-1 letters, ſ, Cyrillic, ẞ, €, the Kelvin sign) except line breaks and surrogates (both quotes), 0..4 characters over the escape "
    "alphabet `\\\\ n x 0 1 a q \" '`, and texts around every \\\\x, \\\\u, \\\\U escape, and incomplete ones; integer literals of 1..5, 16, 20 and 40 digits and 11 fixed numbers; 1..2 characters next to 21 others; "
    "decimal literals of 1+1 digits",
    "thorough": "as quick with 3, 6 and 8 characters/digits",
}
ASSUMPTIONS = [
    "the tokens of the literal are cut by the real lexer on a placeholder, the text of the token is symbolic; replays lex the real text",
    "line breaks inside a literal are outside the claim",
    "decimal literals: the value of float() on the digits is an uninterpreted function of the text with concrete axioms",
]
COVERS = {"all": ["plain", "escape", "octal", "unknown-escape", "backslash", "quote", "hex", "non-ascii", "int", "constant", "decimal", "large", "incomplete"]}

SIMPLE = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9}


def is_hex(S, c):
    return S.any(S.all(c >= "0", c <= "9"), S.all(c >= "a", c <= "f"), S.all(c >= "A", c <= "F"))


def hexval(S, c):
    return S.ite(c <= "9", ord(c) - 48, S.ite(c <= "F", ord(c) - 55, ord(c) - 87))


def octal(S, c):
    return S.all(c >= "0", c <= "7")


def number(S, text, digits):
    """the code point of `digits` hexadecimal digits, None for anything else"""
    if len(text) < digits:
        return None
    v = 0
    for h in text:
        if not is_hex(S, h):
            return None
        v = v * 16 + hexval(S, h)
    return v if v <= 0x10FFFF else None


def reference(S, body, quote):
    """The code points the literal stands for."""
    out = []
    n = len(body)
    i = 0
    while i < n:
        c = body[i]
        if c != "\\":
            S.assume(c != quote)
            S.cover("plain" if c < "\x80" else "non-ascii")
            out.append(ord(c))
            i += 1
            continue
        S.assume(i + 1 < n)
        d = body[i + 1]
        i += 2
        if d == "\\":
            S.cover("backslash")
            out.append(92)
            continue
        if octal(S, d):
            S.cover("octal")
            v = ord(d) - 48
            k = 0
            while k < 2 and i < n and octal(S, body[i]):
                v = v * 8 + (ord(body[i]) - 48)
                i += 1
                k += 1
            out.append(v)
            continue
        digits = 2 if d == "x" else 4 if d == "u" else 8 if d == "U" else 0
        if digits:
            v = number(S, body[i : i + digits], digits)
            if v is None:
                # not an escape
                S.cover("incomplete")
                out.append(ord(d))
                continue
            S.cover("hex")
            i += digits
            out.append(v)
            continue
        hit = False
        for name, code in SIMPLE.items():
            if d == name:
                S.cover("escape")
                out.append(code)
                hit = True
                break
        if hit:
            continue
        S.cover("quote" if d == quote else "unknown-escape")
        out.append(ord(d))
    return out


def check_literal(S, body, quote):
    want = reference(S, body, quote)
    r = run_script(S, f"res = {quote}@{quote}\n", subs={f"{quote}@{quote}": quote + body + quote})
    S.check(r.error is None, "a string literal is an error")
    v = r.var("res").value
    S.check(isinstance(v, str), "a string literal is a string")
    S.check(len(v) == len(want), "wrong number of characters")
    S.check(S.all(*[ord(v[i]) == want[i] for i in range(len(want))]), "wrong characters")


def string(S, quote, maxlen, domain):
    if domain == "esc":
        body = S.str("body", maxlen, chars="\\nx01aq\"'")
    else:
        body = S.str("body", maxlen, domain)
        for c in body:
            S.assume(S.all(c != "\n", c != "\r"))
    check_literal(S, body, quote)


def hex_escape(S, quote, letter, before, after):
    n = {"x": 2, "u": 4, "U": 8}[letter]
    digits = S.str("digits", n, "alnum", minlen=n)
    if letter == "U":
        # the leading digits of a code point are 000 or 0010
        S.assume(S.all(digits[0] == "0", digits[1] == "0"))
        S.assume(S.any(digits[2] == "0", S.all(digits[2] == "1", digits[3] == "0")))
    a = S.str("before", before, chars="\\q")
    b = S.str("after", after, chars="\\0q")
    check_literal(S, a + "\\" + letter + digits + b, quote)


def incomplete(S, quote, letter, n):
    """too few digits, or others"""
    digits = S.str("digits", n, chars="0019afAFgG \\", minlen=n)
    check_literal(S, "a\\" + letter + digits, quote)


def integer(S, n):
    d = S.str("digits", n, "digits", minlen=1)
    want = 0
    for c in d:
        want = want * 10 + (ord(c) - 48)
    r = run_script(S, "res = 12345\n", subs={"12345": d})
    S.cover("int")
    S.check(r.error is None and S.same(r.var("res").value, want), "an integer literal has the wrong value")
    r = run_script(S, "res = -12345 + 12345\n", subs={"12345": d})
    S.check(r.error is None and S.same(r.var("res").value, 0), "-n + n is not 0")


def decimal(S, before, after):
    a = S.str("a", before, "digits", minlen=before)
    b = S.str("b", after, "digits", minlen=after)
    r = run_script(S, "res = 11.22\n", subs={"11": a, "22": b})
    S.check(r.error is None, "a decimal literal is an error")
    v = r.var("res").value
    S.check(isinstance(v, float), "a decimal literal is a float")
    S.cover("decimal")
    a, b = S.concrete(a), S.concrete(b)
    S.check(S.same(v, float(a + "." + b)), "a decimal literal has the wrong value")


def large(S, n):
    """integer literals of many digits"""
    d = S.str("digits", n, "digits", minlen=n)
    want = 0
    for c in d:
        want = want * 10 + (ord(c) - 48)
    S.cover("large")
    r = run_script(S, "res = 12345\n", subs={"12345": d})
    S.check(r.error is None and S.same(r.var("res").value, want), "an integer literal has the wrong value")


def numbers(S):
    """fixed literals, as they are"""
    t = S.choice("t", ["0", "9007199254740993", "18446744073709551617", "1000000000000000000000000000007", "007", "0.1", "3.0", "12345678.125", "0.30000000000000004", "99999999999999999999.5", "00.50"])
    want = float(t) if "." in t else int(t)
    S.cover("large")
    r = run_script(S, f"res = {t}\n")
    v = r.var("res").value
    S.check(r.error is None and type(v) is type(want) and v == want, "a number has the wrong value")


def long_string(S, quote, n):
    """long literals: an arbitrary character or escape after and before other text"""
    c = S.str("c", 2, chars="\\nq\"' é0", minlen=1)
    fill = S.choice("fill", ["x" * n, "\\n" * (n // 2), "é" * n, "a b;c, " * (n // 7)])
    at = S.choice("at", [0, 1, 2])
    body = c + fill if at == 0 else fill + c if at == 1 else fill + c + fill
    S.cover("large")
    check_literal(S, body, quote)


def constants(S):
    n = S.choice("n", [0, 1, 2])
    sps = SubPackages([Pkg("P"), Pkg("Q")][:n])
    S.cover("constant")
    r = run_script(S, "t = True\nf = False\ns = SubPackages\n", subpackages=sps)
    S.check(r.error is None, "constants")
    S.check(r.var("t").value is True and r.var("f").value is False, "boolean constants")
    v = r.var("s").value
    S.check(len(v) == n and all(a is b for a, b in zip(v, sps)), "SubPackages is the list of sub-packages")


def jobs(tier):
    q = tier == "quick"
    for quote in "\"'":
        yield f"string {quote}", "string", {"quote": quote, "maxlen": 2 if q else 3, "domain": "uni"}
        yield f"escapes {quote}", "string", {"quote": quote, "maxlen": 4 if q else 6, "domain": "esc"}
        for letter in "xuU":
            w = 1 if q or letter == "U" else 2
            for n in {"x": (0, 1, 2, 3), "u": (0, 1, 3, 4), "U": (0, 2, 4, 8)}[letter]:
                if q and n == 8:
                    continue
                yield f"incomplete {letter} {n} {quote}", "incomplete", {"quote": quote, "letter": letter, "n": n}
            yield f"\\{letter} {quote}", "hex_escape", {"quote": quote, "letter": letter, "before": w + 1, "after": w}
    yield "integer", "integer", {"n": 5 if q else 8}
    for n in (16, 20, 40):
        yield f"large {n}", "large", {"n": n}
    yield "numbers", "numbers", {}
    for quote in "\"'":
        yield f"long {quote}", "long_string", {"quote": quote, "n": 21 if q else 70}
    yield "decimal", "decimal", {"before": 1, "after": 1}
    yield "constants", "constants", {}
