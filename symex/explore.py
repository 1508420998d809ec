"""Path exploration of one task, with replay of every counterexample."""
import os
import signal
import sys
import time
import traceback

from . import engine as E
from .ctx import SymCtx, ConCtx
from .engine import Engine, PathEnd, CheckFailed, OutOfBudget, NonDeterministic, Unsupported
from .shims import Shims
from .state import restore

ROOT = os.environ.get("SYMEX_REPO", "/repo") + "/"
REPO = ROOT + "pybbn"


class Timeout(BaseException):
    pass


def _alarm(sec):
    def h(_, frame):
        # never from inside the solver's bindings; the timer fires again
        if E.CUR is not None and E.CUR.busy:
            return
        while frame is not None:
            if "/z3/" in frame.f_code.co_filename or frame.f_code.co_name == "__del__":
                return
            frame = frame.f_back
        raise Timeout()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec, 0.5)


def _noalarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Task:
    def __init__(self, name, fn, budget=60, validate=3, shims=None, path_timeout=100, max_paths=10**9, **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.budget = budget
        self.validate = validate
        self.shims = shims
        self.path_timeout = path_timeout
        self.max_paths = max_paths


def replay(task, assignment, limit=30):
    """Run the task's harness on floats.  -> (kind, label, detail, reached)"""
    prev = E.CUR
    E.CUR = None
    ctx = ConCtx(assignment)
    restore()
    extra = task.shims(ctx) if task.shims else ()
    try:
        with Shims(extra):
            _alarm(limit)
            try:
                task.fn(ctx, **task.params)
                return ("ok", None, None, ctx)
            except PathEnd:
                return ("cut", None, None, ctx)
            except CheckFailed as f:
                return ("violation", f.label, f.detail, ctx)
            except Timeout:
                return ("violation", "no-termination", "still running after %ss" % limit, ctx)
            except Exception as ex:
                return ("violation", "exception:" + type(ex).__name__, _tb(ex), ctx)
            finally:
                _noalarm()
    finally:
        E.CUR = prev


def _tb(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    loc = [f for f in tb if f.filename.startswith(ROOT)]
    where = " at %s:%d" % (loc[-1].filename.split(ROOT)[-1], loc[-1].lineno) if loc else ""
    return ("%s: %s%s" % (type(ex).__name__, ex, where))[:400]


class Funcs:
    """Which functions of the code under test were executed symbolically."""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        self.id = m.PROFILER_ID
        try:
            m.use_tool_id(self.id, "symex")
        except ValueError:
            self.id = None
            return self

        def start(code, off):
            if code.co_filename.startswith(REPO):
                self.seen.add("%s:%s" % (code.co_filename[len(ROOT):], code.co_qualname))
            return m.DISABLE
        m.register_callback(self.id, m.events.PY_START, start)
        m.set_events(self.id, m.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.id is not None:
            sys.monitoring.set_events(self.id, 0)
            sys.monitoring.free_tool_id(self.id)


def explore(task, seed=1, known=(), deadline=None):
    t0 = time.time()
    dl = t0 + task.budget
    if deadline is not None:
        dl = min(dl, deadline)
    eng = Engine(seed=seed, deadline=dl)
    res = {
        "task": task.name, "violation": None, "known": [], "complete": False,
        "error": None, "samples": [], "labels": [], "unreproduced": [],
    }
    st = eng.stats
    labels = set()
    knownset = {}
    errtext = None
    with Funcs() as fx:
        while True:
            eng.begin()
            ctx = SymCtx(eng)
            cands = None
            label = detail = None
            restore()
            E.CUR = eng
            extra = task.shims(ctx) if task.shims else ()
            try:
                with Shims(extra):
                    _alarm(max(1.0, min(task.path_timeout, dl - time.time() + 5)))
                    try:
                        task.fn(ctx, **task.params)
                    finally:
                        _noalarm()
                st.paths += 1
            except PathEnd:
                st.paths_cut += 1
            except CheckFailed as f:
                label, detail, cands = f.label, f.detail, f.assignment if f.assignment is not None else "path"
                st.paths += 1
            except OutOfBudget:
                break
            except NonDeterministic as ex:
                # the run did not repeat: what was covered so far stands, the rest is not explored
                res["nondeterministic"] = str(ex)[:300]
                break
            except Timeout:
                if time.time() >= dl:
                    break
                label, detail, cands = "no-termination", "", "path"
                st.paths += 1
            except Exception as ex:
                label, detail, cands = "exception:" + type(ex).__name__, _tb(ex), "path"
                errtext = traceback.format_exc()
                st.paths += 1
            labels |= ctx.labels
            try:
                if cands == "path":
                    cands = []
                    _alarm(30)
                    try:
                        for k in range(3):
                            a = eng.sample_assignment() if k else eng.assignment()
                            if a is not None:
                                cands.append(a)
                    except Timeout:
                        pass
                    finally:
                        _noalarm()
                if cands is not None:
                    got = None
                    for a in cands:
                        if a is None:
                            continue
                        r = replay(task, a)
                        st.models_replayed += 1
                        if r[0] == "violation":
                            got = (r, a)
                            break
                    first = next((a for a in cands if a is not None), None)
                    if got is None and first is not None:
                        for a in eng.variants(first):
                            r = replay(task, a)
                            st.models_replayed += 1
                            if r[0] == "violation" and r[1] == label:
                                got = (r, a)
                                break
                    if got is not None:
                        r, a = got
                        if r[1] in known or label in known:
                            k = r[1] if r[1] in known else label
                            knownset.setdefault(k, (a, str(r[2])[:300]))
                        else:
                            res["violation"] = {"label": r[1], "detail": str(r[2])[:600], "assignment": a,
                                                "symbolic_label": label, "symbolic_detail": str(detail)[:600]}
                            break
                    elif label.startswith("exception:") or label == "no-termination" or eng.path_realised:
                        # the encoding has no meaning for something on this path;
                        # the concrete runs of its models satisfied the property
                        st.degraded += 1
                        if r[3].reached:
                            res["concrete"] = res.get("concrete", 0) + 1
                        if st.degraded >= 40 and st.degraded == st.paths:
                            break
                        if errtext and not res["error"]:
                            res.setdefault("degraded_why", errtext[-700:])
                    elif cands:
                        # a disagreement the machine arithmetic does not show
                        res["unreproduced"].append({"label": label, "detail": str(detail)[:300], "assignment": cands[0]})
                        if len(res["unreproduced"]) > 3:
                            break
                    else:
                        st.inconclusive += 1
                elif st.models_replayed < task.validate and ctx.reached:
                    a = eng.sample_assignment()
                    if a is not None:
                        r = replay(task, a)
                        st.models_replayed += 1
                        if len(res["samples"]) < 2:
                            res["samples"].append({"task": task.name, "inputs": _short(a), "checks": r[3].reached})
                        if r[0] == "violation":
                            if r[1] in known:
                                knownset.setdefault(r[1], (a, str(r[2])[:300]))
                            else:
                                res["violation"] = {"label": r[1], "detail": str(r[2])[:600], "assignment": a,
                                                    "symbolic_label": None, "symbolic_detail": "validation replay of a path model"}
                                break
            except OutOfBudget:
                break
            if st.paths >= task.max_paths:
                break
            if time.time() > dl:
                break
            if not eng.backtrack():
                res["complete"] = True
                break
    E.CUR = None
    res["known"] = [{"label": k, "assignment": a, "detail": d} for k, (a, d) in knownset.items()]
    res["labels"] = sorted(labels)
    res["stats"] = st.as_dict()
    res["functions"] = sorted(fx.seen)
    res["wall"] = round(time.time() - t0, 2)
    return res


def _short(a):
    out = {}
    for k, v in list(a.items())[:24]:
        out[k] = "%d/%d" % tuple(v) if isinstance(v, list) else v
    return out
