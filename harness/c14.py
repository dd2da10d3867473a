"""C14 selection of sub-packages and plugins."""

from harness.common import Pkg, Sev, Severity, SubPackages, run_script

BOUNDS = {
    "quick": "three installers of up to 3 sub-packages with up to 4 files each (plugins of the three extensions, in folders, in two sub-packages and with another "
    "case); any selected sub-packages and plugins before, then one operation, and histories of 2 operations from the start, with an arbitrary name (any "
    "text of the length of the known names over their letters in both cases); and a sub-package with an arbitrary name and an arbitrary plugin name; 9 sub-packages selected in any rotation of an order",
    "thorough": "as quick with two operations from any selection, and histories of 3 operations",
}
ASSUMPTIONS = ["which of two plugin names differing only in case is listed is outside the claim", "missing names are allowed (severity is C17)"]
COVERS = {"all": ["selected", "deselected", "missing", "already", "all", "none", "plugins-of-selected", "other-case", "arbitrary", "big"]}

WORLDS = {
    "shared": [("P", ["a.esp", "b.esm", "x.txt"]), ("Q", ["f/A.esp", "d.esl"]), ("R", ["y.dds"])],
    "order": [("p", ["a.esp", "C.esp"]), ("Q", ["b.esm"])],
    "plain": [("P", ["a.esp"]), ("Q", ["b.esp"])],
    "none": [("P", ["a.txt", "esp"]), ("q", [])],
}


def fold(s):
    return s.casefold()


def world(name):
    """(packages, plugin names of every package, distinct plugin names)"""
    ws = WORLDS[name]
    per = []
    every = []
    for _, files in ws:
        mine = []
        for f in files:
            base = f.split("/")[-1]
            if base[-4:] in (".esp", ".esm", ".esl"):
                mine.append(fold(base))
                if fold(base) not in every:
                    every.append(fold(base))
        per.append(mine)
    return SubPackages([Pkg(n, f) for n, f in ws]), [fold(n) for n, _ in ws], per, every


class Model:
    def __init__(self, S, names, per, every):
        self.S, self.names, self.per, self.every = S, names, per, every
        self.subs = set()
        self.plugins = set()

    def find(self, name, among):
        for k in among:
            if fold(name) == k:
                if name != k:
                    self.S.cover("other-case")
                return k
        return None

    def op(self, op, name):
        S = self.S
        if op == "SelectAll":
            S.cover("all")
            self.subs = set(self.names)
            self.plugins = set(self.every)
        elif op == "DeSelectAll":
            S.cover("none")
            self.subs, self.plugins = set(), set()
        elif op == "SelectAllPlugins":
            S.cover("plugins-of-selected")
            self.plugins = {p for n, ps in zip(self.names, self.per) if n in self.subs for p in ps}
        elif op == "DeSelectAllPlugins":
            self.plugins = set()
        else:
            sub = op.endswith("SubPackage")
            k = self.find(name, self.names if sub else self.every)
            mine = self.subs if sub else self.plugins
            if k is None:
                S.cover("missing")
            elif op.startswith("De"):
                S.cover("deselected")
                mine.discard(k)
            else:
                S.cover("already" if k in mine else "selected")
                mine.add(k)
                if sub:
                    self.plugins |= set(self.per[self.names.index(k)])


PLAIN = ["SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins"]
NAMED = ["SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "DeSelectPlugin"]


def same_selection(S, r, m, what):
    S.check(r.error is None and r.ctx.is_complete(), f"{what}: must complete")
    subs = [fold(p.name) for p in r.state.subpackages]
    plugins = [fold(p.name) for p in r.state.plugins]
    S.check(len(subs) == len(set(subs)), f"{what}: a sub-package is listed twice")
    S.check(len(plugins) == len(set(plugins)), f"{what}: a plugin is listed twice")
    S.check(set(subs) == m.subs, f"{what}: wrong sub-packages selected")
    S.check(set(plugins) == m.plugins, f"{what}: wrong plugins selected")
    S.check(subs == sorted(subs) and plugins == sorted(plugins), f"{what}: not sorted")
    S.check([str(p) for p in r.state.subpackages] == [p.name for p in r.state.subpackages], f"{what}: wrong text of a name")


def name_for(S, i, op):
    if op.endswith("SubPackage"):
        return S.str(f"n{i}", 1, chars="pPqQrRx", minlen=1)
    return S.str(f"n{i}", 5, minlen=5, chars="aAbBdD.eEsSpPmMlL")


def ops(S, m, script, env, chosen):
    for i, op in enumerate(chosen):
        if op in NAMED:
            n = name_for(S, i, op)
            env[f"n{i}"] = n
            script.append(f"{op} n{i}\n")
            m.op(op, n)
        else:
            script.append(op + "\n")
            m.op(op, None)


def step(S, which, first, count):
    """any selection, then operations"""
    sps, names, per, every = world(which)
    m = Model(S, names, per, every)
    script, env = [], {}
    mask = S.choice("subs", range(2 ** len(names)))
    for i, n in enumerate(names):
        if mask >> i & 1:
            script.append(f'SelectSubPackage "{sps[i].name}"\n')
            m.subs.add(n)
    script.append("DeSelectAllPlugins\n")
    mask = S.choice("plugins", range(2 ** len(every)))
    for i, n in enumerate(every):
        if mask >> i & 1:
            script.append(f'SelectPlugin "{n}"\n')
            m.plugins.add(n)
    chosen = [first] + [S.choice(f"op{i}", PLAIN + NAMED) for i in range(1, count)]
    ops(S, m, script, env, chosen)
    r = run_script(S, "".join(script), env, subpackages=sps, sev=Sev(Severity.ALLOW), runner=True)
    same_selection(S, r, m, " ".join(chosen))


def history(S, which, first, count):
    """operations from the start"""
    sps, names, per, every = world(which)
    m = Model(S, names, per, every)
    script, env = [], {}
    chosen = [first] + [S.choice(f"op{i}", PLAIN + NAMED) for i in range(1, count)]
    ops(S, m, script, env, chosen)
    r = run_script(S, "".join(script), env, subpackages=sps, sev=Sev(Severity.ALLOW), runner=True)
    same_selection(S, r, m, " ".join(chosen))


def big(S, n, op):
    """many sub-packages, selected in some order"""
    sps = SubPackages([Pkg(f"P{i}", [f"a{i}.esp", f"d/b{i % 3}.esm", "x.txt"]) for i in range(n)])
    m = Model(S, [f"p{i}" for i in range(n)], [sorted([f"a{i}.esp", f"b{i % 3}.esm"]) for i in range(n)], sorted([f"a{i}.esp" for i in range(n)] + [f"b{i}.esm" for i in range(3)]))
    env = {"k": S.choice("k", range(n)), "w": S.choice("w", range(n))}
    script = ""
    for i in range(n):
        at = (i * 7 + env["k"]) % n
        if i != env["w"]:
            script += f'SelectSubPackage "P{at}"\n'
            m.op("SelectSubPackage", f"P{at}")
    for o, name in (("DeSelectSubPackage", f"P{env['k']}"), ("DeSelectPlugin", f"A{env['w']}.esp"), (op, None), ("SelectPlugin", "b1.esm"), ("DeSelectSubPackage", "p2")):
        script += o + (f' "{name}"' if name else "") + "\n"
        m.op(o, name)
    S.cover("big")
    r = run_script(S, script, {}, subpackages=sps, sev=Sev(Severity.ALLOW), runner=True)
    same_selection(S, r, m, "many sub-packages")


def arbitrary(S, first):
    """arbitrary names of a sub-package and of a plugin"""
    pn = S.str("pn", 2, "uni", minlen=1)
    fn = S.str("fn", 1, "alnum", minlen=1)
    ext = S.choice("ext", [".esp", ".esm", ".esl", ".txt"])
    sps = SubPackages([Pkg("other", ["zz.esp"]), Pkg(pn, ["d/" + fn + ext])])
    S.assume(fold(pn) != "other")
    n = S.str("n", 2, "uni", minlen=1)
    plugin = fn + ext
    S.cover("arbitrary")
    r = run_script(S, f"{first}SelectSubPackage n\n", {"n": n}, subpackages=sps, sev=Sev(Severity.ALLOW), runner=True)
    before = [] if first == "" else ["other"]
    beforep = [] if first == "" else ["zz.esp"]
    subs = [p.name for p in r.state.subpackages]
    plugins = [p.name for p in r.state.plugins]
    if fold(n) == fold(pn):
        S.check(len(subs) == 1 + len(before), "the sub-package must be selected")
        S.check(S.any(*[S.same(x, pn) for x in subs]), "the sub-package must be listed by its own name")
        if ext != ".txt":
            S.check(len(plugins) == 1 + len(beforep), "its plugin must be selected")
            S.check(S.any(*[S.same(x, plugin) for x in plugins]), "its plugin must be listed by its file name")
        else:
            S.check(plugins == beforep, "other files are not plugins")
        r = run_script(S, f"{first}SelectSubPackage n\nDeSelectSubPackage n\nDeSelectPlugin pl\n", {"n": n, "pl": plugin.upper()}, subpackages=sps, sev=Sev(Severity.ALLOW), runner=True)
        S.check([p.name for p in r.state.subpackages] == before, "the sub-package must be de-selected")
        S.check([p.name for p in r.state.plugins] == beforep, "the plugin must be de-selected")
    else:
        S.check(subs == before and plugins == beforep, "nothing must be selected")


def jobs(tier):
    q = tier == "quick"
    for w in WORLDS:
        for op in PLAIN + NAMED:
            yield f"step {w} {op}", "step", {"which": w, "first": op, "count": 1 if q else 2}
            yield f"history {w} {op}", "history", {"which": w, "first": op, "count": 2 if q else 3}
    for op in PLAIN:
        yield f"big {op}", "big", {"n": 9 if q else 20, "op": op}
    yield "arbitrary", "arbitrary", {"first": ""}
    yield "arbitrary 2", "arbitrary", {"first": 'SelectSubPackage "other"\n'}
