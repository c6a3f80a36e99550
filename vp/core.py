"""Arms, runner, evidence and replay files.

A *check* (checks/cNN.py) is a list of `Arm`s.  An arm has a Hypothesis
strategy producing a JSON-able `case` and a function `test(case)` that runs the
real code and an oracle.  `test` raises (any exception) when the property does
not hold and returns a truthy label when the case was non-trivial.
Failures are shrunk by Hypothesis and the minimal case is written as JSON to
replays/<property>-<arm>.json, which `./run CNN FILE` re-executes.
"""

import hashlib
import json
import multiprocessing as mp
import os
import queue
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Reject(Exception):
    """The generated case is outside the property's domain (not counted)."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg="requirement failed", *args):
    if not cond:
        raise Violation(str(msg) + (" " + " ".join(repr(a)[:400] for a in args) if args else ""))


class Arm:
    def __init__(self, name, strategy, test, quick=200, thorough=None, rule="", setup=None):
        self.name = name
        self.strategy = strategy
        self.test = test
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.setup = setup


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(_jsonable(v) for v in x)
    return x


def canon(case):
    """Round-trip through JSON so that replays see exactly what the run saw."""
    return json.loads(json.dumps(_jsonable(case)))


def run_arm(prop, arm, seed, tier, budget):
    """Run one arm; returns a dict of results."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    n = arm.quick if tier == "quick" else arm.thorough
    n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
    state = {"evals": 0, "nontrivial": 0, "labels": {}, "distinct": set(), "samples": [], "fail": None,
             "stopped": False, "rejected": 0}
    t0 = time.time()
    if arm.setup is not None:
        arm.setup()

    arm_seed = int(hashlib.sha256(f"{prop}/{arm.name}/{seed}".encode()).hexdigest()[:12], 16)

    @hypothesis.seed(arm_seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )
    @given(arm.strategy)
    def go(case):
        if state["fail"] is None and time.time() - t0 > budget:
            state["stopped"] = True
            return
        # time limit for shrinking
        if state["fail"] is not None and time.time() - state["t_fail"] > 60:
            raise state["exc"]
        case = canon(case)
        try:
            label = arm.test(case)
        except Reject:
            state["rejected"] += 1
            hypothesis.reject()
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # noqa: BLE001 -- code under test failing is a violation
            if type(e).__module__.startswith("hypothesis") or type(e) is MemoryError:
                raise
            if isinstance(e, SystemExit):
                e = Violation(f"the code under test exits the interpreter with {e.code!r}")
            state["fail"] = (case, f"{type(e).__name__}: {e}", traceback.format_exc())
            state["exc"] = e
            state.setdefault("t_fail", time.time())
            raise e
        if state["fail"] is None:
            state["evals"] += 1
            if label:
                key = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()
                if key not in state["distinct"]:
                    state["distinct"].add(key)
                    lab = label if isinstance(label, str) else "nontrivial"
                    state["labels"][lab] = state["labels"].get(lab, 0) + 1
                    if len(state["samples"]) < 2 and len(state["distinct"]) in (1, 25, 100):
                        s = json.dumps(case)
                        state["samples"].append(json.loads(s) if len(s) < 3000 else {"truncated": s[:3000]})

    err = None
    try:
        go()
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is None:
            err = traceback.format_exc()
            if isinstance(e, (KeyboardInterrupt,)):
                raise
    return {
        "arm": arm.name,
        "evaluations": state["evals"],
        "distinct_nontrivial": len(state["distinct"]),
        "labels": state["labels"],
        "samples": state["samples"],
        "rejected": state["rejected"],
        "fail": state["fail"],
        "error": err,
        "stopped_by_budget": state["stopped"],
        "wall_s": round(time.time() - t0, 2),
        "rule": arm.rule,
    }


def _worker(prop, arms, names, seed, tier, budget, out):
    import signal

    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if not os.environ.get("VERIF_DEBUG"):
        # the code under test prints; only the parent reports
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    while True:
        try:
            i = names.get_nowait()
        except queue.Empty:
            return
        try:
            res = run_arm(prop, arms[i], seed, tier, budget)
        except BaseException:  # noqa: BLE001
            res = {"arm": arms[i].name, "error": traceback.format_exc(), "fail": None, "evaluations": 0,
                   "distinct_nontrivial": 0, "labels": {}, "samples": [], "wall_s": 0, "rule": arms[i].rule}
        out.put(res)


def load_findings(prop):
    """Committed known findings: KNOWN-FINDING lines only, keyed by arm + marker text."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


def run_check(prop, module, tier, seed, nproc=None):
    t0 = time.time()
    arms = module.arms()
    only = os.environ.get("VERIF_ARMS")
    if only:
        arms = [a for a in arms if a.name in only.split(",")]
    budget = getattr(module, "BUDGET", {"quick": 150, "thorough": 3000})[tier]
    nproc = nproc or int(os.environ.get("VERIF_NPROC", "8"))
    ctx = mp.get_context("fork")
    names = ctx.Queue()
    out = ctx.Queue()
    for i in range(len(arms)):
        names.put(i)
    time.sleep(0.05)
    procs = [ctx.Process(target=_worker, args=(prop, arms, names, seed, tier, budget, out), daemon=False)
             for _ in range(min(nproc, len(arms)))]
    sys.stdout.flush()
    for p in procs:
        p.start()
    results = []
    while len(results) < len(arms):
        try:
            results.append(out.get(timeout=2))
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                try:
                    while len(results) < len(arms):
                        results.append(out.get(timeout=2))
                except queue.Empty:
                    break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    if hasattr(module, "teardown"):
        module.teardown()
    missing = {a.name for a in arms} - {r["arm"] for r in results}
    order = {a.name: i for i, a in enumerate(arms)}
    results.sort(key=lambda r: order[r["arm"]])

    known = load_findings(prop)
    for k in known:
        # a listed finding is re-demonstrated on the real code, so that it is
        # reported only while it is still there
        probe = getattr(module, "FINDING_PROBES", {}).get(k["key"])
        if probe is None or probe():
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    violations = [r for r in results if r["fail"]]
    errors = [r for r in results if r["error"]]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": " || ".join(f"[{r['arm']}] {r['rule']}" for r in results),
            "samples": [{"arm": r["arm"], "case": s} for r in results for s in r["samples"]][:24],
            "per_arm": [
                {k: r.get(k) for k in ("arm", "evaluations", "distinct_nontrivial", "labels", "rejected",
                                       "stopped_by_budget", "wall_s")}
                for r in results
            ],
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print(f"  {prop}/{r['arm']}: {r['evaluations']} cases, {r['distinct_nontrivial']} non-trivial, "
              f"{r['wall_s']} s {r['labels']}" + (" BUDGET" if r.get("stopped_by_budget") else ""))
    for r in violations:
        case, msg, tb = r["fail"]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{r['arm']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "arm": r["arm"], "case": case, "message": msg, "traceback": tb}, f, indent=1)
        print(f"  {prop}/{r['arm']} failed: {msg[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if errors or missing:
        for r in errors:
            print(f"HARNESS ERROR in arm {r['arm']}:\n{r['error']}", file=sys.stderr)
        if missing:
            print("HARNESS ERROR arms without result:", missing, file=sys.stderr)
        return 2
    return 0


def replay(prop, module, path):
    d = json.load(open(path))
    for a in module.arms():
        if a.name == d["arm"]:
            if a.setup is not None:
                a.setup()
            try:
                a.test(d["case"])
            except Reject:
                print("case rejected")
                return 0
            except Exception as e:  # noqa: BLE001
                traceback.print_exc()
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            finally:
                if hasattr(module, "teardown"):
                    module.teardown()
            print("replay passes")
            return 0
    print("no such arm", d["arm"])
    return 2
