"""C15 renames, notes and INI tweaks recorded by the runner."""

from harness.common import Pkg, Plugin, Sev, Severity, SubPackages, WizardTypeError, run_script, sym_value

BOUNDS = {
    "quick": "histories of 3 operations out of RenamePlugin, ResetPluginName, ResetAllPluginNames, with arbitrary names of up to 1 character over all letters and new names of up "
    "to 2 characters, the mixed alphabet (ASCII, Latin-1 letters, ſ, Cyrillic, ẞ, €, the Kelvin sign) in histories of 2; 3 INI edits with arbitrary file names of up to 1 character, sections, settings, values of every type, "
    "with and without comment; 3 notes of every kind; every number of arguments from 0 to 6; histories of 9 INI edits, notes and renames with one arbitrary file and note",
    "thorough": "as quick with histories of 4 operations, and of 3 over the mixed alphabet",
}
ASSUMPTIONS = [
    "the spelling of the key of a plugin renamed twice with names differing in case is outside the claim",
    "arguments of the INI functions that are not strings are recorded as they are",
]
COVERS = {"all": ["renamed", "renamed-again", "reset", "reset-missing", "reset-all", "note", "edit", "disable", "comment", "no-comment", "same-file", "arity", "long"]}


def fold(s):
    return s.casefold()


def renames(S, first, count, maxlen, dom, minlen=0):
    model = []  # (folded key, value), in order
    script, env, used = [], {}, []
    for i in range(count):
        op = first if i == 0 else S.choice(f"op{i}", ["rename", "reset", "all"])
        if op == "all":
            S.cover("reset-all")
            script.append(S.choice(f"alias{i}", ["ResetAllPluginNames", "ResetAllEspmNames"]) + "\n")
            model = []
            continue
        n = S.str(f"n{i}", maxlen, dom, minlen=minlen)
        used.append(n)
        env[f"n{i}"] = n
        at = None
        for k, (name, _) in enumerate(model):
            if fold(n) == name:
                at = k
                break
        if op == "rename":
            m = S.str(f"m{i}", 1, "uni")
            env[f"m{i}"] = m
            script.append(f"RenamePlugin n{i}, m{i}\n")
            if at is None:
                S.cover("renamed")
                model.append((fold(n), m))
            else:
                S.cover("renamed-again")
                model[at] = (fold(n), m)
        else:
            script.append(f"ResetPluginName n{i}\n")
            if at is None:
                S.cover("reset-missing")
            else:
                S.cover("reset")
                del model[at]
    r = run_script(S, "".join(script), env, runner=True)
    S.check(r.error is None and r.ctx.is_complete(), "must complete")
    S.check(r.warnings == [], "no warning expected")
    real = r.state.renames
    S.check(len(real) == len(model), "wrong number of renamed plugins")
    S.check(S.same([(fold(k.name), v) for k, v in real.items()], model), "wrong renames")
    for n in used:
        want = None
        for name, v in model:
            if fold(n) == name:
                want = v
                break
        got = real.get(Plugin(n), None)
        S.check(S.same(got, want), "a renamed plugin must be found by any spelling of its name")
    S.check(len(r.state.notes) == 0 and not r.state.tweaks and len(r.state.plugins) == 0 and len(r.state.subpackages) == 0, "nothing else may change")


def tweaks(S, count, kind, first=None):
    script, env, dis, mod, files = [], {}, [], [], []
    comments = []
    for i in range(count):
        f = S.str(f"f{i}", 1, "uni" if i == 0 and count < 3 else "ascii", minlen=0 if i == 0 else 1)
        sec = S.str(f"s{i}", 1, "ascii", minlen=1)
        key = S.str(f"k{i}", 1, "ascii", minlen=1)
        env.update({f"f{i}": f, f"s{i}": sec, f"k{i}": key})
        known = False
        for g in files:
            if g == f:
                known = True
                break
        if not known:
            files.append(f)
        else:
            S.cover("same-file")
        op = S.choice(f"op{i}", ["edit", "comment", "disable"]) if i or not first else first
        if op == "disable":
            S.cover("disable")
            script.append(f"DisableINILine(f{i}, s{i}, k{i})\n")
            dis.append((f, sec, key))
        else:
            v = sym_value(S, f"v{i}", kind if i == 0 else "int", 2)
            env[f"v{i}"] = v
            if op == "edit":
                S.cover("edit")
                S.cover("no-comment")
                script.append(f"EditINI(f{i}, s{i}, k{i}, v{i})\n")
                mod.append((f, sec, key, v))
                comments.append("")
            else:
                S.cover("comment")
                c = S.str(f"c{i}", 1, "ascii")
                env[f"c{i}"] = c
                script.append(f"EditINI(f{i}, s{i}, k{i}, v{i}, c{i})\n")
                mod.append((f, sec, key, v))
                comments.append(c)
    r = run_script(S, "".join(script), env, runner=True)
    S.check(r.error is None and r.ctx.is_complete(), "must complete")
    t = r.state.tweaks
    S.check(S.same([(m.filename, m.section, m.setting, m.value) for m in t.modified], mod), "wrong modified settings")
    S.check(S.same([m.comment for m in t.modified], comments), "wrong comments")
    S.check(S.same([(m.filename, m.section, m.setting) for m in t.disabled], dis), "wrong disabled settings")
    got = list(t.files())
    S.check(len(got) == len(files), "every file must be listed once")
    for f in files:
        S.check(S.any(*[S.same(f, g) for g in got]), "a file with tweaks must be listed")
    for a, b in zip(got, got[1:]):
        S.check(a < b, "the files must be sorted")
    S.check(bool(t) is True, "there are tweaks")
    q = S.str("q", 1, "ascii" if count > 2 else "uni", minlen=1)
    want = [m[:3] for m in mod if m[0].lower() == q.lower()] + [m for m in dis if m[0].lower() == q.lower()]
    S.check(S.same([(m.filename, m.section, m.setting) for m in t.tweaks(q)], want), "wrong tweaks of a file")


def notes(S, kinds):
    env, script, want = {}, "", []
    for i, k in enumerate(kinds):
        v = sym_value(S, f"v{i}", k, 2, "uni") if k not in ("int", "float") else S.choice(f"v{i}", [0, -17, 123456789012345678901]) if k == "int" else S.choice(f"v{i}", [0.5, -1e30])
        env[f"v{i}"] = v
        script += f"Note v{i}\n"
        want.append(v if k == "str" else str(v))
        S.cover("note")
    r = run_script(S, script, env, runner=True, sev=Sev(Severity.ALLOW))
    S.check(r.error is None and r.ctx.is_complete(), "must complete")
    S.check(S.same(list(r.state.notes), want), "wrong notes")
    S.check(not r.state.tweaks and len(r.state.renames) == 0, "nothing else may change")


def long(S, n):
    """long histories: files, plugins and notes again and again, one of them arbitrary"""
    k = S.choice("k", range(n))
    f, t = S.str("f", 2, chars="aB1", minlen=1), S.str("t", 1, "ascii")
    names = ["ab", "AB", "b1", "c"]
    script, mod, dis, notes_, ren = "", [], [], [], {}
    for i in range(n):
        name = f if i == k else names[i % 4]
        text = "f" if i == k else f'"{names[i % 4]}"'
        if i % 3 != 2:
            script += f'EditINI({text}, "s{i % 2}", "k{i % 5}", {i})\n'
            mod.append((name, f"s{i % 2}", f"k{i % 5}", i))
        else:
            script += f'DisableINILine({text}, "s", "k{i % 5}")\n'
            dis.append((name, "s", f"k{i % 5}"))
        script += f'Note {"t" if i == k else i % 4}\n' if i == k else f'Note "{i % 4}"\n'
        notes_.append(t if i == k else str(i % 4))
        script += f'RenamePlugin "{names[i % 4]}", "n{i}"\n'
        ren[fold(names[i % 4])] = f"n{i}"
        if i == k:
            script += f'ResetPluginName "{names[i % 4].upper()}"\n'
            del ren[fold(names[i % 4])]
    S.cover("long")
    r = run_script(S, script, {"f": f, "t": t}, runner=True)
    S.check(r.error is None and r.ctx.is_complete(), "must complete")
    tw = r.state.tweaks
    S.check(S.same([(m.filename, m.section, m.setting, m.value) for m in tw.modified], mod), "wrong modified settings")
    S.check(S.same([(m.filename, m.section, m.setting) for m in tw.disabled], dis), "wrong disabled settings")
    S.check(S.same(list(r.state.notes), notes_), "wrong notes")
    S.check({fold(p.name): v for p, v in r.state.renames.items()} == ren, "wrong renames")
    S.check([fold(p.name) for p in r.state.renames] == list(ren), "the renames must be in order")
    for q in ("ab", "B1", f):
        want = [m[:3] for m in mod if m[0].lower() == q.lower()] + [m for m in dis if m[0].lower() == q.lower()]
        S.check(S.same([(m.filename, m.section, m.setting) for m in tw.tweaks(q)], want), "wrong tweaks of a file")


def arity(S, name, n):
    """wrong numbers of arguments are type errors and change nothing"""
    lo, hi = {"EditINI": (4, 5), "DisableINILine": (3, 3), "RenamePlugin": (2, 2), "ResetPluginName": (1, 1), "Note": (1, 1)}[name]
    env = {f"a{i}": S.str(f"a{i}", 1, "ascii") for i in range(n)}
    args = ", ".join(f"a{i}" for i in range(n))
    call = f"{name}({args})" if name in ("EditINI", "DisableINILine") else f"{name} {args}"
    if n == 0 and name not in ("EditINI", "DisableINILine"):
        return
    S.cover("arity")
    r = run_script(S, call + "\n", env, runner=True)
    if lo <= n <= hi:
        S.check(r.error is None, "right number of arguments")
        return
    S.check(isinstance(r.error, WizardTypeError), "a wrong number of arguments is a type error")
    st = r.state
    S.check(not st.tweaks and len(st.notes) == 0 and len(st.renames) == 0, "a failed statement changes nothing")


def jobs(tier):
    q = tier == "quick"
    for first in ("rename", "reset", "all"):
        yield f"renames {first}", "renames", {"first": first, "count": 3 if q else 4, "maxlen": 1, "dom": "ascii", "minlen": 1}
        yield f"renames 2 {first}", "renames", {"first": first, "count": 2 if q else 3, "maxlen": 2, "dom": "ascii"}
        yield f"renames uni {first}", "renames", {"first": first, "count": 2 if q else 3, "maxlen": 1, "dom": "uni"}
    for k in ("bool", "int", "float", "str", "subpackage", "void"):
        yield f"tweaks {k}", "tweaks", {"count": {"str": 2}.get(k, 1) if q else 2, "kind": k}
    for op in ("edit", "comment", "disable"):
        yield f"tweaks of {op}", "tweaks", {"count": 3, "kind": "int", "first": op}
        if not q:
            yield f"tweaks with str of {op}", "tweaks", {"count": 3, "kind": "str", "first": op}
    for k in ("bool", "int", "float", "str", "subpackage"):
        yield f"notes {k}", "notes", {"kinds": ["str", k, "str"]}
    yield "long", "long", {"n": 9 if q else 24}
    for name in ("EditINI", "DisableINILine", "RenamePlugin", "ResetPluginName", "Note"):
        for n in range(7):
            yield f"arity {name} {n}", "arity", {"name": name, "n": n}
