"""Rewrites the "fixed" records of known_findings.json from the fix: commits of /repo."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = {
    "simulation results report": ("C11", "SimulationResult.finite_elements was always 0 and delta_t a tuple"),
    "simulating a problem covers": ("C11", "OptimalControlProblem.simulate ignored t_0 and, with finite_elements, left out the last interval"),
    "discretization grid starts": ("C01", "t_0 != 0 was ignored: elements, collocation times and integration started at time 0 (also C02, C03, C04, C05)"),
    "collocation with degree 1": ("C01", "degree=1 collocation used a constant state polynomial: every solution was x(t)=const"),
    "do not constrain the first": ("C03", "with rate limits and no last control the first control move was constrained against 0"),
    "pass the given last control": ("C03", "solve(last_u=...) was ignored: the problem's own last_u was sent"),
    "polynomial with a point at zero": ("C07", "create_polynomial_approximation of an empty variable raised"),
    '"x <= c" constraints': ("C08", "include_constraint(x <= 1) imposed x >= 1"),
    "recognize strict": ("C08", "include_constraint(x < 1) was refused"),
    "included variables accept": ("C08", "include_variable(x, lb=0) raised for an integer bound"),
    "rebuild the solver": ("C08", "constraints added after a solve were ignored by the next solve"),
    "included models keep": ("C09", "include_models forgot the parametrisation of the controls of the included model"),
    "removing a state": ("C10", "remove_state left the removed state's initial-condition symbol in x_0"),
    "deep copies": ("C10", "get_deepcopy kept symbols of the original, doubled prefixes, and raised without parameters"),
}


def main():
    path = os.path.join(ROOT, "known_findings.json")
    d = json.load(open(path))
    extra = os.path.join(ROOT, "tools", "fixed_extra.json")
    what = dict(WHAT)
    if os.path.exists(extra):
        what.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
    out = [f for f in d["findings"] if f.get("kind") != "fixed"]
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True,
                         text=True).stdout
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        s = s[4:].strip()
        key = [k for k in what if s.startswith(k)]
        assert len(key) == 1, (s, key)
        p, w = what[key[0]]
        out.append({"kind": "fixed", "id": "fixed-" + h, "property": p, "commit": h, "scenario": None,
                    "what": "fixed: property=%s %s %s" % (p, h, w)})
    json.dump({"findings": out}, open(path, "w"), indent=1)


main()
