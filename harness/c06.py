"""C06 assignment, compound assignment, increment and decrement."""

from harness.common import BASIC, Sev, Severity, Value, WizardNameError, WizardTypeError, kind_of, run_script, sym_value

BOUNDS = {
    "all": "variables of every kind (bool, int, float, string, sub-package, list, void); ints unbounded, all finite doubles, "
    "strings of 0..2 characters; 12 uses of a variable that is not set; an unrelated second variable with symbolic content"
}
ASSUMPTIONS = ["division and remainder by zero are outside the claim", "float % and ** are uninterpreted (same operation compared)"]
COVERS = {"all": ["incdec", "incdec-undefined", "incdec-type", "compound", "compound-type", "compound-undefined", "assign", "unset"]}

KINDS = ("bool", "int", "float", "str", "subpackage", "subpackages", "void")


def incdec(S, text, d, k):
    x = sym_value(S, "x", k)
    y = S.int("y")
    r = run_script(S, f"res = {text}\n", {"x": x, "y": y})
    if k in ("bool", "int", "float"):
        S.cover("incdec")
        S.check(r.error is None, f"{text} must be defined on {k}")
        S.check(S.same(r.var("x").value, x + d), f"{text} changes the variable by one")
        S.check(S.same(r.var("res").value, x + d), f"{text} gives the new value")
        S.check(S.same(r.var("y").value, y), "another variable changed")
        S.check(set(r.state.variables) == {"x", "y", "res"}, "variables appeared")
        # as a statement
        r = run_script(S, f"{text}\n", {"x": x, "y": y})
        S.check(S.same(r.var("x").value, x + d), f"{text} changes the variable by one")
        # twice in the same expression
        r = run_script(S, f"res = ({text}) + ({text})\n", {"x": x, "y": y})
        S.check(S.same(r.var("x").value, x + d + d), f"{text} twice")
        S.check(S.same(r.var("res").value, (x + d) + (x + d + d)), f"{text} twice")
    else:
        S.cover("incdec-type")
        S.check(isinstance(r.error, WizardTypeError), f"{text} on {k} must be a type error")


def incdec_undefined(S, text):
    y = S.int("y")
    r = run_script(S, f"res = {text}\n", {"y": y})
    S.cover("incdec-undefined")
    S.check(isinstance(r.error, WizardNameError) and r.error.name == "x", "must be a name error")


def safe(S, op, x, y, kx, ky):
    num = ("bool", "int", "float")
    if kx in num and ky in num:
        if op in "/%":
            S.assume(y != 0)
        if op == "^":
            S.assume(x > 0)
            S.assume(x < 4)
            S.assume(y >= 0)
            S.assume(y < 4)


def compound(S, op, kx, ky):
    x, y, z = sym_value(S, "x", kx), sym_value(S, "y", ky), S.int("z")
    safe(S, op, x, y, kx, ky)
    vs = {"x": x, "y": y, "z": z}
    r1 = run_script(S, f"x {op}= y\n", vs)
    r2 = run_script(S, f"x = x {op} y\n", vs)
    if r2.error is not None:
        S.cover("compound-type")
        S.check(isinstance(r2.error, WizardTypeError), "must be a type error")
        S.check(isinstance(r1.error, WizardTypeError), f"x {op}= y must fail like x = x {op} y")
        return
    S.cover("compound")
    S.check(r1.error is None, f"x {op}= y must be defined like x = x {op} y")
    S.check(S.same(r1.var("x").value, r2.var("x").value), f"x {op}= y is not x = x {op} y")
    S.check(r1.var("x").type == r2.var("x").type, "type tag")
    S.check(S.all(S.same(r1.var("y").value, y), S.same(r1.var("z").value, z)), "another variable changed")
    S.check(set(r1.state.variables) == {"x", "y", "z"}, "variables appeared")


def compound_undefined(S, op):
    y = S.int("y")
    r = run_script(S, f"x {op}= y\n", {"y": y})
    S.cover("compound-undefined")
    S.check(isinstance(r.error, WizardNameError) and r.error.name == "x", "must be a name error")
    r = run_script(S, f"y {op}= 1\nx {op}= y\n", {"y": y})
    S.check(isinstance(r.error, WizardNameError) and r.error.name == "x", "must be a name error")


def assign(S, kx, ky):
    """x = y stores y's value, whatever was there, and later changes to y do not reach x"""
    x, y, z = sym_value(S, "x", kx), sym_value(S, "y", ky), S.int("z")
    r = run_script(S, "x = y\nw = z\nz += 1\ny = 0\n", {"x": x, "y": y, "z": z})
    S.cover("assign")
    S.check(r.error is None, "assignment is defined")
    S.check(S.same(r.var("x").value, y), "assignment stores the value")
    S.check(S.same(r.var("w").value, z) and S.same(r.var("z").value, z + 1), "a copy follows the original")
    S.check(kind_of(r.var("x").value) == ky, "assignment changes the kind")
    r = run_script(S, "x = x\n", {"x": x})
    S.check(S.same(r.var("x").value, x), "self assignment")
    r = run_script(S, "t = x\nx = y\ny = t\n", {"x": x, "y": y})
    S.check(S.same(r.var("x").value, y) and S.same(r.var("y").value, x), "swap")


UNSET = ("y = v", "y = v + 1", "y = -v", "y = not v", "y = str(v)", "y += v", "If v\nEndIf", "While v\nEndWhile", "v", "y = (v == v)", 'y = "abc"[v]', "y = v and v")


def unset(S, text):
    """reading a variable that was never set does not set it, nor anything else"""
    y, z = S.int("y"), S.int("z")
    sev = Sev()
    sev.set_default_severity(S.choice("level", [Severity.ALLOW, Severity.WARNING]))
    r = run_script(S, text + "\n", {"y": y, "z": z}, sev=sev)
    S.cover("unset")
    S.check(r.error is None, "an unset variable is 0")
    S.check(set(r.state.variables) == {"y", "z"}, "variables appeared")
    S.check(S.same(r.var("z").value, z), "another variable changed")


def jobs(tier):
    for i, t in enumerate(UNSET):
        yield f"unset {i}", "unset", {"text": t}
    for text, d in (("x++", 1), ("++x", 1), ("x--", -1), ("--x", -1)):
        for k in KINDS:
            yield f"{text} {k}", "incdec", {"text": text, "d": d, "k": k}
        yield f"{text} undefined", "incdec_undefined", {"text": text}
    for op in ("+", "-", "*", "/", "%", "^"):
        for kx in KINDS:
            for ky in KINDS:
                yield f"{kx} {op}= {ky}", "compound", {"op": op, "kx": kx, "ky": ky}
        yield f"{op}= undefined", "compound_undefined", {"op": op}
    for kx in KINDS:
        for ky in KINDS:
            yield f"assign {kx} {ky}", "assign", {"kx": kx, "ky": ky}
