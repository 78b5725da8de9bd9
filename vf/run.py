"""Driver: runs the scenarios of one property, replays counterexamples, writes
the evidence file and decides the exit code.

exit 0  every claim discharged (or only known findings)
exit 1  a violation, replayed on the real code  -> VIOLATION line
exit 2  no answer: solver unknown, counterexample not reproduced, harness error
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import boot

boot.setup()

from . import core  # noqa: E402

EVID = os.path.join(boot.VERIF, "evidence")
LEVEL = "other"


class Scenario:
    def __init__(self, name, fn, **params):
        self.name, self.fn, self.params = name, fn, params


# stand-ins that only hand a call on: an exception that passes through them is the caller's
FORWARD = {("hooks.py", "passthrough"), ("boot.py", "__call__"), ("boot.py", "__init__"), ("boot.py", "__getattr__"),
           ("boot.py", "__setattr__"), ("boot.py", "retrieve"), ("boot.py", "<lambda>"), ("concolic.py", "__new__"),
           ("concolic.py", "symmax"), ("hooks.py", "f"), ("linalg.py", "solve"), ("linalg.py", "inv"), ("linalg.py", "chol")}


def _repo_frame(tb):
    """Innermost /repo frame if the exception left the repository's code, i.e.
    no harness frame lies deeper than the last /repo frame."""
    frames = traceback.extract_tb(tb)
    last_repo, last_harness = None, None
    for i, f in enumerate(frames):
        if f.filename.startswith(boot.REPO + os.sep + "yaocptool"):
            last_repo = i
        elif f.filename.startswith(boot.VERIF + os.sep) and (os.path.basename(f.filename), f.name) not in FORWARD:
            last_harness = i
    if last_repo is None or (last_harness is not None and last_harness > last_repo):
        return None
    f = frames[last_repo]
    return "%s:%d %s" % (os.path.relpath(f.filename, boot.REPO), f.lineno, f.name)


def _execute(sc, ctx, monitor=True):
    """Returns (error-kind, message, functions)."""
    err = None
    mon = boot.Monitor()
    try:
        with mon:
            sc.fn(ctx, **sc.params)
    except core.Structural as e:
        ctx.fail.append(("structure", "structural", {}, str(e)))
    except core.NeedNumbers as e:
        err = ("raised", str(e) or "numbers needed")
    except core.HarnessError as e:
        err = ("harness", str(e))
    except Exception as e:  # noqa: BLE001
        where = _repo_frame(sys.exc_info()[2])
        msg = "%s: %s" % (type(e).__name__, str(e)[-300:].replace("\n", " "))
        if where:
            err = ("raised", where + " " + msg)
        else:
            err = ("harness", msg + " | " + traceback.format_exc()[-1500:])
    return err, sorted(mon.seen)


def run_scenario(sc, seed, tier):
    t0 = time.time()
    cross = tier == "thorough"
    ctx = core.Ctx("sym", seed, tier, cross=cross)
    err, fns = _execute(sc, ctx)
    mode = "sym"
    out = {"scenario": sc.name, "outcome": "ok", "fns": fns}
    if err and err[0] == "raised":
        # symbols may have been refused where the API documents numbers
        first = err
        ctx = core.Ctx("semi", seed, tier, cross=cross)
        err, fns = _execute(sc, ctx)
        out["fns"] = sorted(set(out["fns"]) | set(fns))
        mode = "semi"
        if err and err[0] == "raised":
            n = core.Ctx("num", seed, tier, semi=True, only="#none")
            nerr, _ = _execute(sc, n)
            if nerr and nerr[0] == "raised":
                out.update(outcome="violation", claim="no exception",
                           detail={"claim": "supported use must not raise",
                                   "message": nerr[1]})
            else:
                out.update(outcome="noanswer", message="raises only under stubs: " + err[1])
        elif not err:
            out["note"] = "numeric arguments were concretised: " + first[1]
    if err and err[0] == "harness":
        out.update(outcome="noanswer", message=err[1])
    if out["outcome"] == "ok" and ctx.fail:
        f = ctx.fail[0]
        for f in ctx.fail:
            name, kind, model, msg = f[:4]
            hint = f[4] if len(f) > 4 else 0
            n = core.Ctx("num", seed, tier, only=name, point=model, semi=(mode == "semi"),
                         hint=hint)
            nerr, _ = _execute(sc, n)
            det = n.confirmed
            if det is None and mode == "sym":       # code that computes with numbers only
                m = core.Ctx("num", seed, tier, only=name, point=model, semi=True, hint=hint)
                merr, _ = _execute(sc, m)
                if m.confirmed is not None and not merr:
                    det = m.confirmed
            if det is None and n.fail and n.fail[0][1] == "structural" and kind == "structural":
                det = {"claim": n.fail[0][0], "message": n.fail[0][3]}
            if det is None and kind == "vacuous":
                det = _vacuous_confirm(sc, seed, tier, name, mode)
            if det is None and nerr and nerr[0] == "raised":
                det = {"claim": name, "message": nerr[1]}
            if det is not None:
                out.update(outcome="violation", claim=name,
                           detail=dict(det, solver=kind, solver_message=msg,
                                       solver_point={k: v for k, v in list(model.items())[:60]}))
                break
            why = nerr[1] if nerr else "not reproduced on the real code"
            out.update(outcome="noanswer", claim=name,
                       message="%s: %s (%s) %s" % (name, kind, msg, why))
    st = ctx.stats
    out.update(mode=mode, seconds=time.time() - t0, queries=st.queries, unsat=st.unsat, sat=st.sat,
               unknown=st.unknown, solver_s=st.seconds, lemmas=st.lemmas, exact=st.exact,
               twins=st.twins, paths=st.paths, cross=st.cross, claims=len(ctx.claims), scalars=ctx.scalars,
               tchecks=ctx.translator_checks, atoms=len(ctx.enc.atoms),
               instructions=ctx.enc.instructions, samples=ctx.samples[:1])
    return out


def _vacuous_confirm(sc, seed, tier, name, mode):
    """Hypotheses (the produced constraint set) contradictory: confirmed when a
    numerical solver cannot find any point for the real functions either."""
    return None


def _worker(args):
    modname, idx, seed, tier = args
    try:
        mod = importlib.import_module("vf.checks." + modname)
        sc = mod.scenarios(tier)[idx]
        return run_scenario(sc, seed, tier)
    except Exception:  # noqa: BLE001
        return {"scenario": "%s[%d]" % (modname, idx), "outcome": "noanswer",
                "message": traceback.format_exc()[-1500:], "fns": []}


def load_findings():
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--scenario")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.property
    t0 = time.time()
    modname = pid.lower()
    try:
        mod = importlib.import_module("vf.checks." + modname)
        scs = mod.scenarios(tier)
    except Exception as e:  # noqa: BLE001
        where = _repo_frame(sys.exc_info()[2])
        print(traceback.format_exc())
        if where:
            return _report(pid, tier, seed, t0, None, [
                {"scenario": "import", "outcome": "violation", "claim": "import",
                 "detail": {"message": "%s %s" % (where, e)}, "fns": []}])
        print("NO-ANSWER property=%s: %s" % (pid, e))
        return 2
    try:
        import yaocptool.methods  # noqa: F401  imported once, before the workers fork
    except Exception:  # noqa: BLE001  reported by the scenarios themselves
        pass
    sel = [i for i, s in enumerate(scs) if not a.scenario or a.scenario in s.name]
    jobs = [(modname, i, seed, tier) for i in sel]
    if a.jobs == 1:
        res = [_worker(j) for j in jobs]
    else:
        limit = 780 if tier == "quick" else 6000
        ctxm = mp.get_context("fork")
        with ctxm.Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=8) as pool:
            handles = [pool.apply_async(_worker, (j,)) for j in jobs]
            res = []
            for (j, h) in zip(jobs, handles):
                left = max(5.0, limit - (time.time() - t0))
                try:
                    res.append(h.get(left))
                except mp.TimeoutError:
                    res.append({"scenario": scs[j[1]].name, "outcome": "noanswer",
                                "message": "time limit", "fns": []})
            pool.terminate()
    if a.v:
        for r in res:
            print("%-55s %-9s %5.1fs q=%d %s" % (r["scenario"], r["outcome"], r.get("seconds", 0),
                                              r.get("queries", 0), r.get("message", r.get("detail", r.get("note", "")))))
    return _report(pid, tier, seed, t0, mod, res)


def _report(pid, tier, seed, t0, mod, res):
    findings = [f for f in load_findings() if f["property"] == pid and f.get("kind") != "fixed"]
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    viol = [r for r in res if r["outcome"] == "violation"]
    noans = [r for r in res if r["outcome"] == "noanswer"]
    reported = []
    hit = set()
    for r in viol:
        known = None
        for f in findings:
            if f["scenario"] == r["scenario"] and (f.get("claim") in (None, r.get("claim"))):
                known = f
        if known:
            hit.add(known["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, known["what"]))
        else:
            reported.append(r)
    for r in reported:
        path = os.path.join(EVID, "replay_%s_%s.json" % (pid, core.digest(r["scenario"] + str(r.get("claim")))))
        with open(path, "w") as fh:
            json.dump({"property": pid, "scenario": r["scenario"], "claim": r.get("claim"),
                       "detail": r.get("detail"),
                       "rerun": "cd %s && %s -W ignore run.py %s --scenario '%s' -v"
                                % (boot.VERIF, sys.executable, pid, r["scenario"])},
                      fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  scenario %s claim %s: %s" % (r["scenario"], r.get("claim"),
                                             json.dumps(r.get("detail"), default=str)[:600]))
        rc = 1
    if rc == 0 and noans:
        for r in noans:
            print("NO-ANSWER property=%s scenario=%s %s" % (pid, r["scenario"], r.get("message")))
        rc = 2
    tot = lambda k: sum(r.get(k, 0) for r in res)  # noqa: E731
    fns = sorted({f for r in res for f in r.get("fns", [])})
    anchors = [f for f in fns]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "explanation": (mod.EXPLANATION if mod is not None else "") ,
            "bounds": (mod.BOUNDS if mod is not None else ""),
            "scenarios": len(res),
            "scenarios_fully_symbolic": sum(1 for r in res if r.get("mode") == "sym"),
            "claims": tot("claims"), "scalar_expressions_encoded": tot("scalars"),
            "casadi_instructions_encoded": tot("instructions"), "smt_atoms": tot("atoms"),
            "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
            "queries_unknown": tot("unknown"), "exact_nonlinear_queries": tot("exact"),
            "congruence_lemmas": tot("lemmas"), "reachability_twins": tot("twins"),
            "cvc5_cross_checks": tot("cross"), "paths_explored": tot("paths"),
            "translator_points_compared_with_casadi": tot("tchecks"),
            "solver_seconds": round(tot("solver_s"), 3),
            "functions_encoded": anchors,
            "functions_encoded_count": len(anchors),
            "samples": [s for r in res for s in r.get("samples", [])][:6],
            "scenario_names": [r["scenario"] for r in res],
            "no_answer": [r["scenario"] for r in noans],
            "notes": sorted({r["note"] for r in res if r.get("note")}),
        },
        "assumptions": (mod.ASSUMPTIONS if mod is not None else []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("property=%s tier=%s scenarios=%d claims=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs rc=%d"
          % (pid, tier, len(res), tot("claims"), tot("queries"), tot("unsat"), tot("solver_s"),
             time.time() - t0, rc))
    boot.cleanup()
    return rc
