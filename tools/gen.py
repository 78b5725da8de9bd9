"""Regenerates properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -W ignore run.py"
TECH = "symbolic execution of the real Python/CasADi code, decided by SMT (z3)"
NOTE = ("Solver-decided for every value of all data within the listed sizes; configurations outside the "
        "bounds in the evidence file are not covered.")

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=TECH, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, state=state, observe=observe, tech=tech, note=note, na=na))


Y = "yaocptool/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            for f in list(p["files"]) + [b for _, b in p["mech"]]:
                assert os.path.exists("/repo/" + Y + f), f
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": [Y + f for f in p["files"]],
                    "state": [{"name": a, "meaning": b, "where": Y + c} for a, b, c in p["state"]],
                    "mechanism": [{"name": a, "where": Y + b} for a, b in p["mech"]],
                    "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        man["checks"].append({
            "property": p["id"], "quick_cmd": "%s %s" % (PY, p["id"]),
            "thorough_cmd": "VERIF_TIER=thorough %s %s" % (PY, p["id"]),
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["tech"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
