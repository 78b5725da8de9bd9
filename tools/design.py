"""Assembles DESIGN.md: head + one section per property + repaired defects + planted bugs."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, why=why, na=na, files=files))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("EXPLANATION", "BOUNDS", "ASSUMPTIONS", "ORACLE", "COST"):
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    s = open(os.path.join(ROOT, "tools", "design_head.md")).read()
    s += "## Properties\n"
    for p in PROPS:
        s += "\n### %s %s\n\n" % (p["id"], p["title"])
        if p["na"]:
            s += "Not applicable: %s\n" % p["na"]
            continue
        c = consts(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py"))
        s += "%s\n\n* **Bounds:** %s\n* **Assumptions:** %s\n* **Why tests cannot:** %s\n* **Code:** %s\n" % (
            c["EXPLANATION"], c["BOUNDS"], "; ".join(c["ASSUMPTIONS"]), p["why"], ", ".join(p["files"]))
    s += "\nCost: a quick check takes 5 to 60 s wall on 8 cores, thorough up to a few minutes.\n"
    f = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    s += "\n## Genuine defects found\n\nRepaired in /repo (one `fix:` commit each; the check reports them again if they return):\n\n"
    s += "".join("* %s `%s` %s\n" % (x["property"], x["commit"], x["what"].split(" ", 3)[3]) for x in f if x["kind"] == "fixed")
    k = [x for x in f if x["kind"] != "fixed"]
    s += "\nRecorded as known findings (not repaired):\n\n" + ("".join("* %s %s\n" % (x["property"], x["what"]) for x in k) or "* none\n")
    t = os.path.join(ROOT, "tools", "design_tail.md")
    if os.path.exists(t):
        s += "\n" + open(t).read()
    s += "\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by its check |\n|---|---|---|---|\n"
    det = os.path.join(ROOT, "tools", "detected.json")
    det = json.load(open(det)) if os.path.exists(det) else {}
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        s += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], det.get(d, "?"))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)


main()
