"""Programs as trees: their script text, and a reference reading of them.

  ("log", n)                        call log(n, i, j)
  ("set", name, expr)
  ("if", [(cond, body), ...], else_body or None)
  ("for", var, lo, hi, by, body)    by may be None
  ("in", var, expr, body)
  ("while", cond, body)
  ("break",) ("continue",) ("return",) ("cancel", text or None)
  ("select", many, description, [(name, text, image)], [(case, body)], default or None)
  ("inc", name)
  ("stmt", text, fn(S, env))        any other statement
  ("exec", how, body)               Exec() of the text of body, see quote()
An expression is a name, an int, ("str", constant), ("not", x), ("eff", name) for
name++, ("ask", n) for an arbitrary boolean, or (op, x, y)."""

from harness.common import Value, Void, WizardParseError, run_script


class Stop(Exception):
    def __init__(self, how, message=None):
        self.how = how
        self.message = message


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Fuel(Exception):
    pass


def expr_text(e):
    if isinstance(e, tuple):
        if e[0] == "str":
            return '"' + e[1] + '"'
        if e[0] == "not":
            return f"not ({expr_text(e[1])})"
        if e[0] == "eff":
            return f"{e[1]}++"
        if e[0] == "ask":
            return f"ask({e[1]})"
        return f"({expr_text(e[1])} {e[0]} {expr_text(e[2])})"
    return str(e)


def quote(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def text(prog, ind=0):
    out = ""
    pad = "  " * ind
    for st in prog:
        k = st[0]
        if k == "log":
            out += f"{pad}log({st[1]}, i, j)\n"
        elif k == "set":
            out += f"{pad}{st[1]} = {expr_text(st[2])}\n"
        elif k == "inc":
            out += f"{pad}{st[1]}++\n"
        elif k == "stmt":
            out += f"{pad}{st[1]}\n"
        elif k == "exec":
            t = text(st[2])
            cut = len(t) // 2
            arg = {"literal": quote(t), "sum": f"{quote(t[:cut])} + {quote(t[cut:])}", "variable": "text"}[st[1]]
            if st[1] == "variable":
                out += f"{pad}text = {quote(t)}\n"
            out += f"{pad}Exec({arg})\n"
        elif k == "if":
            for n, (c, body) in enumerate(st[1]):
                out += f"{pad}{'Elif' if n else 'If'} {expr_text(c)}\n" + text(body, ind + 1)
            if st[2] is not None:
                out += f"{pad}Else\n" + text(st[2], ind + 1)
            out += f"{pad}EndIf\n"
        elif k == "for":
            by = "" if st[4] is None else f" by {expr_text(st[4])}"
            out += f"{pad}For {st[1]} from {expr_text(st[2])} to {expr_text(st[3])}{by}\n" + text(st[5], ind + 1) + f"{pad}EndFor\n"
        elif k == "in":
            out += f"{pad}For {st[1]} in {expr_text(st[2])}\n" + text(st[3], ind + 1) + f"{pad}EndFor\n"
        elif k == "while":
            out += f"{pad}While {expr_text(st[1])}\n" + text(st[2], ind + 1) + f"{pad}EndWhile\n"
        elif k in ("break", "continue", "return"):
            out += f"{pad}{k.capitalize()}\n"
        elif k == "cancel":
            out += f"{pad}Cancel{'' if st[1] is None else ' ' + expr_text(st[1])}\n"
        elif k == "select":
            many, desc, opts, cases, dflt = st[1:]
            name = "SelectMany" if many else "SelectOne"
            rows = [expr_text(desc)] + [", ".join(expr_text(x) for x in o) for o in opts]
            out += f"{pad}{name} " + (", \\\n" + pad + "    ").join(rows) + "\n"
            for c, body in cases:
                out += f"{pad}  Case {expr_text(c)}\n" + text(body, ind + 2)
            if dflt is not None:
                out += f"{pad}  Default\n" + text(dflt, ind + 2)
            out += f"{pad}EndSelect\n"
        else:
            raise ValueError(k)
    return out


class Ref:
    """`choose(many, options, defaults)` is the user's answer to a dialog: a list
    of option names."""

    def __init__(self, S, env, choose=None, fuel=60, ask=None):
        self.S = S
        self.env = dict(env)
        self.log = []
        self.choose = choose
        self.fuel = fuel
        self.ask = ask

    def expr(self, e):
        if isinstance(e, tuple):
            if e[0] == "str":
                return e[1]
            if e[0] == "eff":
                self.env[e[1]] = self.env[e[1]] + 1
                return self.env[e[1]]
            if e[0] == "ask":
                return self.ask(e[1])
            if e[0] == "not":
                return self.S.no(self.expr(e[1]))
            a, b = self.expr(e[1]), self.expr(e[2])
            if e[0] == "==":
                return a == b
            if e[0] == "!=":
                return a != b
            if e[0] == "<":
                return a < b
            if e[0] == "<=":
                return a <= b
            if e[0] == ">":
                return a > b
            if e[0] == ">=":
                return a >= b
            if e[0] == "+":
                return a + b
            if e[0] == "-":
                return a - b
            if e[0] == "*":
                return a * b
            raise ValueError(e[0])
        if isinstance(e, int):
            return e
        if e in ("True", "False"):
            return e == "True"
        return self.env[e]

    def run(self, prog):
        """(how it ended, message)"""
        try:
            self.block(prog)
        except Stop as s:
            return s.how, s.message
        except Break:
            return "bad-break", None
        except Continue:
            return "bad-continue", None
        return "complete", None

    def block(self, prog):
        for st in prog:
            self.stmt(st)

    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()

    def loop_body(self, body):
        """True when the loop must end"""
        self.burn()
        try:
            self.block(body)
        except Break:
            return True
        except Continue:
            pass
        return False

    def stmt(self, st):
        k = st[0]
        env = self.env
        if k == "log":
            self.log.append((st[1], env["i"], env["j"]))
        elif k == "set":
            env[st[1]] = self.expr(st[2])
        elif k == "inc":
            env[st[1]] = env[st[1]] + 1
        elif k == "stmt":
            st[2](self.S, self)
        elif k == "exec":
            if st[1] == "variable":
                env["text"] = text(st[2])
            self.block(st[2])
        elif k == "if":
            for c, body in st[1]:
                if self.expr(c):
                    self.block(body)
                    return
            if st[2] is not None:
                self.block(st[2])
        elif k == "for":
            lo, hi = self.expr(st[2]), self.expr(st[3])
            by = 1 if st[4] is None else self.expr(st[4])
            v = lo
            while (v <= hi) if by > 0 else (v >= hi):
                env[st[1]] = v
                if self.loop_body(st[5]):
                    break
                v = v + by
        elif k == "in":
            for v in self.expr(st[2]):
                env[st[1]] = v
                if self.loop_body(st[3]):
                    break
        elif k == "while":
            while self.expr(st[1]):
                if self.loop_body(st[2]):
                    break
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        elif k == "return":
            raise Stop("return")
        elif k == "cancel":
            raise Stop("cancel", None if st[1] is None else self.expr(st[1]))
        elif k == "select":
            many, desc, opts, cases, dflt = st[1:]
            self.expr(desc)
            names, defaults = [], []
            for o in opts:
                n = self.expr(o[0])
                self.expr(o[1])
                self.expr(o[2])
                if len(n) > 0 and n[0] == "|":
                    n = n[1:]
                    defaults.append(len(names))
                names.append(n)
            if not many:
                defaults = defaults[:1] or [0]
            chosen = self.choose(many, names, defaults) if self.choose else [names[d] for d in defaults]
            self.cases(many, chosen, cases, dflt)

    def cases(self, many, chosen, cases, dflt):
        found = False
        falling = False
        for c, body in cases:
            if found and not falling and not many:
                return
            label = self.expr(c)
            hit = falling
            if not hit:
                for n in chosen:
                    if n == label:
                        hit = True
                        break
            if hit:
                found = True
                falling = True
                try:
                    self.block(body)
                except Break:
                    falling = False
        if dflt is not None and (falling or not found):
            try:
                self.block(dflt)
            except Break:
                pass


class Decisions:
    """The n-th question of a run has an arbitrary answer, the same in both readings."""

    def __init__(self, S):
        self.S = S
        self.flags = []

    def reader(self, log):
        n = 0

        def ask(tag):
            nonlocal n
            log.append(("ask", tag))
            if n == len(self.flags):
                self.flags.append(self.S.bool(f"d{n}"))
            n += 1
            return self.flags[n - 1]

        return ask


def compare(S, prog, env, choose=None, pick=None, what="", fuel=60):
    """Runs `prog` by the interpreter and by the reference; everything observable
    must agree.  Returns (outcome, reference, result)."""
    d = Decisions(S)
    log = []
    real_ask = d.reader(log)

    def f_log(st, vs):
        log.append(tuple(v.value for v in vs))
        return Value(Void())

    def f_ask(st, vs):
        return Value(real_ask(vs[0].value))

    script = text(prog)
    r = run_script(S, script, env, functions={"log": f_log, "ask": f_ask}, pick=pick)
    ref = Ref(S, env, choose, fuel)
    ref.ask = d.reader(ref.log)
    how, msg = ref.run(prog)
    S.check(len(log) == len(ref.log), f"{what}: other statements were executed")
    S.check(S.same(log, ref.log), f"{what}: other statements, or with other values, were executed")
    if how in ("bad-break", "bad-continue"):
        S.check(isinstance(r.error, WizardParseError), f"{what}: a misplaced Break or Continue must be a script error")
        return how, ref, r
    S.check(r.error is None, f"{what}: unexpected script error")
    S.check(r.ctx.is_complete() == (how == "complete"), f"{what}: wrong termination (complete)")
    S.check(r.ctx.is_return() == (how == "return"), f"{what}: wrong termination (return)")
    S.check(r.ctx.is_cancel() == (how == "cancel"), f"{what}: wrong termination (cancel)")
    S.check(S.same(r.ctx.message(), msg), f"{what}: wrong message")
    S.check(S.same(r.vars(), ref.env), f"{what}: wrong variables at the end")
    return how, ref, r


# Spines: a statement inside nested blocks, every block with something before,
# inside and after it.

WRAPS = ("for", "in", "while", "if", "else", "case", "fall", "default")
LOOPS = ("for", "in", "while")


def wrap(kind, depth, body, turns=2):
    """body inside a block of the given kind"""
    v = "ij"[depth % 2]
    n = 10 * (depth + 1)
    body = [("log", n + 1), ("set", "q", ("+", ("*", "q", 2), depth + 1))] + body + [("log", n + 2)]
    opts = [(("str", "A"), ("str", ""), ("str", "")), (("str", "|B"), ("str", ""), ("str", "")), (("str", "C"), ("str", ""), ("str", ""))]
    if kind == "for":
        st = [("for", v, 1, turns, None, body)]
    elif kind == "in":
        st = [("in", v, ("str", "xyzuvw"[:turns]), body)]
    elif kind == "while":
        w = f"w{depth}"
        st = [("set", w, 0), ("while", ("<", w, turns), [("inc", w)] + body)]
    elif kind == "if":
        st = [("if", [(("ask", n), body)], None)]
    elif kind == "else":
        st = [("if", [(("ask", n), [("log", n + 3)]), ("False", [("log", n + 4)])], body)]
    elif kind == "case":
        st = [("select", False, ("str", "?"), opts, [(("str", "A"), [("log", n + 3), ("break",)]), (("str", "B"), body + [("break",)]), (("str", "C"), [("log", n + 4)])], [("log", n + 5)])]
    elif kind == "fall":
        st = [("select", False, ("str", "?"), opts, [(("str", "A"), [("log", n + 3), ("break",)]), (("str", "B"), body), (("str", "C"), [("log", n + 4)])], [("log", n + 5)])]
    elif kind == "default":
        st = [("select", False, ("str", "?"), opts, [(("str", "A"), [("log", n + 3), ("break",)])], body)]
    return st


def spine(kinds, leaf, turns=2, base=0):
    """`base` is the depth of the first block (blocks of one depth share variables)"""
    body = leaf
    for d in range(len(kinds) - 1, -1, -1):
        body = wrap(kinds[d], d + base, body, turns) + [("log", 10 * (d + base + 1) + 9)]
    return [("log", 1), ("set", "q", 1)] + body + [("log", 2)]
