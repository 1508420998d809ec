"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay file] [--task name]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
REPO = os.environ.get("SYMEX_REPO", "/repo")  # another tree only while developing the checks
EVID = os.environ.get("SYMEX_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)

sys.setrecursionlimit(20000)


def load(pid):
    return importlib.import_module("props." + pid.lower())


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == pid and k.get("status", "open") == "open"]


_TASKS = None
_SEED = 1
_KNOWN = ()
_DEADLINE = None


def _work(i):
    from symex.explore import explore
    import resource
    random.seed(_SEED)
    t = _TASKS[i]
    known = tuple(k["label"] for k in _KNOWN if k.get("task") in (None, t.name))
    try:
        r = explore(t, seed=_SEED, known=known, deadline=_DEADLINE)
    except BaseException as ex:  # an engine failure is an error, never a pass
        import traceback
        r = {"task": t.name, "error": "engine: " + traceback.format_exc()[-1500:], "violation": None, "known": [],
             "complete": False, "samples": [], "labels": [], "unreproduced": [], "stats": {}, "functions": [], "wall": 0}
    return i, r


def main():
    global _TASKS, _SEED, _KNOWN, _DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--task")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()
    _SEED = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = load(pid)
    except Exception:
        # the code under test no longer imports: nothing can be decided
        import traceback
        traceback.print_exc()
        print("ERROR property=%s the harness or the code under test does not import" % pid)
        return 2
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        from symex.explore import replay
        tasks = {t.name: t for tier in ("quick", "thorough") for t in mod.tasks(tier)}
        t = tasks[rp["task"]]
        kind, label, detail, _ = replay(t, rp["assignment"], limit=60)
        print("%s %s %s" % (kind, label, detail))
        return 1 if kind == "violation" else 0
    tasks = mod.tasks(a.tier)
    if a.task:
        tasks = [t for t in tasks if a.task in t.name]
    names = [t.name for t in tasks]
    assert len(set(names)) == len(names), "duplicate task names"
    _TASKS = tasks
    _KNOWN = load_known(pid)
    limit = 420 if a.tier == "quick" else 3000
    _DEADLINE = t0 + limit
    results = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].budget)
    violated = None
    if a.jobs > 1 and len(tasks) > 1:
        ctx = mp.get_context("fork")
        with ctx.Pool(a.jobs, maxtasksperchild=1) as pool:
            for i, r in pool.imap_unordered(_work, order, chunksize=1):
                results[i] = r
                if r["violation"] and violated is None:
                    violated = r
                    pool.terminate()
                    break
    else:
        for i in order:
            _, r = _work(i)
            results[i] = r
            if r["violation"]:
                violated = r
                break
    done = [r for r in results if r is not None]
    tot = {}
    for r in done:
        for k, v in r["stats"].items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    funcs = sorted({f for r in done for f in r["functions"]})
    errors = [r for r in done if r["error"]]
    unrep = [dict(u, task=r["task"]) for r in done for u in r["unreproduced"]]
    incomplete = [r["task"] for r in done if not r["complete"] and not r["violation"]]
    empty = [r["task"] for r in done if not r["stats"].get("checks") and not r["violation"] and not r["error"]]
    known_seen = {}
    for r in done:
        for k in r["known"]:
            known_seen.setdefault(k["label"], (r["task"], k))
    code = 0
    lines = []
    for kf in _KNOWN:
        if kf["label"] in known_seen:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    if violated is not None:
        v = violated["violation"]
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "task": violated["task"], "label": v["label"], "detail": v["detail"],
                       "symbolic": [v["symbolic_label"], v["symbolic_detail"]], "assignment": v["assignment"],
                       "how": "/verif/check %s --replay %s" % (pid, path)}, f, indent=1)
        lines.append("counterexample in task %s: %s: %s" % (violated["task"], v["label"], v["detail"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    elif errors:
        code = 2
        for r in errors[:3]:
            lines.append("ERROR task %s: %s" % (r["task"], r["error"]))
    elif not tot.get("checks") and sum(r.get("concrete", 0) for r in done):
        lines.append("NOTE the code uses operations outside the encoding: only the solver's models of its paths were run")
    elif len(empty) == len(done) or not tot.get("checks"):
        code = 2
        lines.append("ERROR no assertion was reached")
    # a disagreement of the encoding that the real code does not show decides nothing
    for u in unrep[:3]:
        lines.append("NOTE inconclusive, the real code does not show it: %s" % json.dumps(u)[:600])
    for r in done:
        if r.get("nondeterministic"):
            lines.append("NOTE task %s stopped early, a path did not repeat: %s" % (r["task"], r["nondeterministic"]))
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": _SEED,
        "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("decisions", 0)),
            "traces_validated_against_impl": int(tot.get("models_replayed", 0)),
            "samples": [s for r in done for s in r["samples"]][:6] or [{"task": names[0]}],
            "exhaustive": not incomplete and not tot.get("inconclusive") and not tot.get("degraded") and not tot.get("realised") and not unrep,
            "meaning": "states = symbolic paths run to the assertions; transitions = two-way solver-feasible decisions; "
                       "traces_validated = solver models replayed on the plain code",
            "tasks": [{"name": r["task"], "complete": r["complete"], "wall_s": r["wall"], "paths": r["stats"].get("paths"),
                       "checks": r["stats"].get("checks"), "degraded_why": r.get("degraded_why")} for r in done],
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "functions_encoded": funcs,
            "solver": {k: tot.get(k, 0) for k in ("queries", "sat", "unsat", "unknown", "solver_time_s")},
            "assertions": {k: tot.get(k, 0) for k in ("checks", "checks_z3", "checks_identity", "checks_const", "inconclusive")},
            "paths_cut_by_assumptions": tot.get("paths_cut", 0),
            "concretisations": tot.get("realised", 0),
            "paths_outside_the_encoding_checked_concretely": tot.get("degraded", 0),
            "unreproduced": unrep[:5],
            "incomplete_tasks": incomplete,
            "tasks_without_assertion": empty,
            "labels": sorted({l for r in done for l in r["labels"]}),
        },
        "assumptions": list(__import__("symex.shims", fromlist=["x"]).LISTED) + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated is not None else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for r in done:
            print("%-46s %s %6.1fs %s" % (r["task"][:46], "done" if r["complete"] else "PART", r["wall"],
                  {k: v for k, v in r["stats"].items() if v}))
            if r.get("degraded_why"):
                print("   degraded:", r["degraded_why"])
        if empty:
            print("no assertion in:", empty)
    for l in lines:
        print(l)
    print("%s: %s; %d tasks, %d paths, %d assertions, %d solver queries, %.1fs" % (
        pid, {0: "held", 1: "VIOLATED", 2: "ERROR"}[code], len(done), tot.get("paths", 0), tot.get("checks", 0),
        tot.get("queries", 0), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
