"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the harnesses."""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import NOTES, PROPS  # noqa: E402

TECH = "symbolic execution of the real Python code over SMT terms (z3), path tree exhausted within bounds, counterexamples replayed"
NOTE = (
    "Bounded symbolic execution of the unmodified source of /repo (instrumented at import): every feasible path within the stated "
    "bounds was explored and every assertion was decided by z3 for all inputs of the path. Trusted: z3, the models of Python built-ins "
    "(cross-checked by setup and by replaying sampled paths on the plain code), the ANTLR runtime on concrete script text. Nothing is claimed outside the bounds."
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            fp.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE + (" " + p["level_note"] if p["level_note"] else ""),
        })
    doc = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na, "notes": NOTES}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(doc, fp, indent=1)
        fp.write("\n")


def design():
    """DESIGN.md out of its template, the bounds in the harnesses and the bookkeeping files."""
    import ast, glob
    sys.path.insert(0, HERE)
    from decide import HOW, TIMES

    def consts(pid):
        tree = ast.parse(open(os.path.join(HERE, "harness", pid.lower() + ".py")).read())
        out = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
                out[n.targets[0].id] = ast.literal_eval(n.value)
        return out

    props = []
    for p in PROPS:
        c = consts(p["id"])
        b = c["BOUNDS"]
        props.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided:* {HOW[p['id']]}\n\n"
                     + "*Bounds:* " + "; ".join((f"{k}: " if k != "all" else "") + v for k, v in b.items()) + ".\n\n"
                     + "*Assumed / outside:* " + "; ".join(c.get("ASSUMPTIONS") or ["nothing further"]) + ".\n")
    times = "| property | quick | thorough |\n|---|---|---|\n" + "\n".join(
        f"| {p['id']} | {TIMES[p['id']][0]} | {TIMES[p['id']][1]} |" for p in PROPS)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    fixed = "\n".join("* " + f.replace("fixed: property=", "") for f in known["fixed"])
    seeded = ["| bug | property | breaks | needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        seeded.append("| " + " | ".join([os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")]) + " |")
    text = open(os.path.join(HERE, "tools", "DESIGN.tpl.md")).read()
    for k, v in {"PROPERTIES": "\n".join(props), "TIMES": times, "FIXED": fixed, "SEEDED": "\n".join(seeded),
                 "N28": str(sum(f["property"] == "C28" for f in known["findings"]))}.items():
        text = text.replace(f"@@{k}@@", v)
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fp:
        fp.write(text)


main()
design()
