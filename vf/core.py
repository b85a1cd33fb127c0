"""Runner of the runtime-monitoring checks.

Every check module ``vf.checks.cNN`` provides

- ``RULE``: how executions are made and what makes one non-trivial,
- ``ASSUMPTIONS``: list of strings,
- ``REQUIRED``: names of monitors that must have observed something,
- ``cases(tier, rng)``: iterable of JSON-able case descriptors,
- ``run_case(case, mon)``: run the real code and feed what it does to the monitor.

A monitor that sees a breach raises Violation. An exception that escapes from the code
under test while it processes a valid input is a violation as well.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = int(os.environ.get("VF_MAXVIOL", 3))
N_WORKERS = int(os.environ.get("VF_WORKERS", min(8, os.cpu_count() or 1)))
BUDGET = {"quick": 50.0, "thorough": 600.0}
CASE_TIMEOUT = {"quick": 200, "thorough": 400}
HARD_LIMIT = {"quick": 600.0, "thorough": 840.0}


class Violation(Exception):
    def __init__(self, msg, **details):
        super().__init__(msg)
        self.msg = msg
        self.details = details


class CaseTimeout(BaseException):
    pass


def _short(obj, limit=1500):
    txt = repr(obj)
    return txt if len(txt) <= limit else txt[:limit] + "..."


class Monitor:
    """Collects what was observed in one execution and raises on violations."""

    def __init__(self):
        self.monitors = Counter()
        self.features = Counter()
        self.signature = None
        self.nontrivial = False
        self.max_dev = {}
        self.sample = None
        self.ctx = {}

    def context(self, **kw):
        self.ctx.update({k: _short(v) for k, v in kw.items()})

    def feature(self, *names):
        for n in names:
            self.features[str(n)] += 1

    def observed(self, what, n=1):
        self.monitors[what] += int(n)

    def sign(self, *objs):
        h = hashlib.sha256()
        for o in objs:
            h.update(o if isinstance(o, bytes) else repr(o).encode())
        self.signature = h.hexdigest()[:16]

    def fail(self, msg, **details):
        details = {k: _short(v) for k, v in details.items()}
        raise Violation(msg, **details)

    def check(self, what, cond, msg="", **details):
        self.monitors[what] += 1
        if not cond:
            self.fail(f"{what}: {msg}", **details)

    def equal(self, what, actual, expected, msg=""):
        self.monitors[what] += 1
        if actual != expected:
            self.fail(f"{what}: {msg} not equal", actual=actual, expected=expected)

    def close(self, what, actual, expected, msg="", rtol=1e-6, atol=1e-6):
        import numpy as np

        actual = np.asarray(actual, dtype=float)
        expected = np.asarray(expected, dtype=float)
        if actual.shape != expected.shape:
            self.fail(
                f"{what}: {msg} shapes differ", actual=actual.shape, exp=expected.shape
            )
        self.monitors[what] += int(actual.size)
        an, en = np.isnan(actual), np.isnan(expected)
        ok = (an & en) | (actual == expected)
        with np.errstate(invalid="ignore"):
            dev = np.abs(actual - expected) / (atol + rtol * np.abs(expected))
        bad = ~ok & ~(dev <= 1)
        if bad.any():
            pos = tuple(int(i) for i in np.argwhere(bad)[0]) if actual.ndim else ()
            self.fail(
                f"{what}: {msg} differ in {int(bad.sum())} of {actual.size} entries, "
                f"first at {pos}",
                actual=actual[pos],
                expected=expected[pos],
            )
        if (~ok).any():
            m = float(dev[~ok].max())
            self.max_dev[what] = max(self.max_dev.get(what, 0.0), m)


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(module, case, timeout):
    import random
    import warnings

    import numpy as np

    mon = Monitor()
    out = {"case": case, "status": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    start = time.time()
    try:
        np.random.seed(int(case.get("seed", 0)) % 2**31)
        random.seed(0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            module.run_case(case, mon)
    except Violation as e:
        out.update(status="violation", msg=e.msg, details={**mon.ctx, **e.details})
    except CaseTimeout:
        out.update(status="timeout", msg="case timed out")
    except MemoryError:
        out.update(status="infra", msg="MemoryError")
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        out.update(
            status="violation",
            msg=f"unexpected {type(e).__name__}: {str(e)[:300]}",
            details={**mon.ctx, "traceback": tb[-3000:]},
        )
    finally:
        signal.alarm(0)
    out.update(
        monitors=dict(mon.monitors),
        features=dict(mon.features),
        signature=mon.signature,
        nontrivial=mon.nontrivial,
        max_dev=mon.max_dev,
        sample=mon.sample,
        wall=time.time() - start,
    )
    return out


def _measure_coverage(name):
    """For development: lines of the package that the executions of a check reach"""
    import atexit
    from multiprocessing import util

    import coverage

    cov = coverage.Coverage(
        data_file=os.path.join(os.environ["VF_COV"], f"cov.{name}.{os.getpid()}"),
        source=[os.path.join(os.environ.get("VF_REPO", "/repo"), "skillmodels")],
        branch=True,
    )
    cov.start()

    def end():
        cov.stop()
        cov.save()

    atexit.register(end)
    util.Finalize(None, end, exitpriority=100)


def _worker(name, tasks, results, timeout):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        if os.environ.get("VF_COV"):
            _measure_coverage(name)
        module = importlib.import_module(f"vf.checks.{name}")
        import jax

        n_done = 0
        while True:
            item = tasks.get()
            if item is None:
                break
            idx, case = item
            results.put(("start", os.getpid(), idx, None))
            res = _run_one(module, case, timeout)
            results.put(("done", os.getpid(), idx, res))
            n_done += 1
            if n_done % 4 == 0:
                jax.clear_caches()
    except BaseException as e:  # noqa: BLE001
        results.put(("dead", os.getpid(), None, f"{e!r}\n{traceback.format_exc()}"))


def _clean(obj):
    if isinstance(obj, dict):
        return {str(k): _clean(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_clean(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    if hasattr(obj, "item") and getattr(obj, "ndim", 1) == 0:
        return obj.item()
    return str(obj)


def run_cases(name, cases, tier, required=()):
    """Run the cases in worker processes. Returns (results, infrastructure problems).

    The time budget only ends the run once all required monitors observed something.
    """
    unseen = set(required)
    ctx = mp.get_context("spawn")
    tasks, results = ctx.Queue(), ctx.Queue()
    cases = list(cases)
    n_workers = max(1, min(N_WORKERS, len(cases)))
    workers = [
        ctx.Process(
            target=_worker, args=(name, tasks, results, CASE_TIMEOUT[tier]), daemon=True
        )
        for _ in range(n_workers)
    ]
    for w in workers:
        w.start()
    start = time.time()
    budget = float(os.environ.get("VF_BUDGET", BUDGET[tier]))
    todo = list(enumerate(cases))[::-1]
    n_open, res, infra = 0, [], []
    stop = False

    def feed():
        nonlocal n_open
        while todo and n_open < n_workers and not stop:
            tasks.put(todo.pop())
            n_open += 1

    feed()
    n_viol = 0
    while n_open > 0:
        try:
            kind, pid, idx, payload = results.get(timeout=1.0)
        except queue.Empty:
            if time.time() - start > HARD_LIMIT[tier]:
                infra.append("hard time limit reached")
                break
            if not any(w.is_alive() for w in workers):
                infra.append("all workers died")
                break
            dead = [w for w in workers if not w.is_alive()]
            if dead:
                infra.append(f"worker died with exit code {dead[0].exitcode}")
                break
            continue
        if kind == "dead":
            infra.append(payload)
            break
        if kind == "start":
            continue
        n_open -= 1
        res.append(payload)
        if payload["status"] == "violation" and not payload["case"].get("known"):
            n_viol += 1
        if payload["status"] in ("timeout", "infra"):
            infra.append(f"{payload['status']}: {payload['case']}")
        unseen -= {m for m, n in payload["monitors"].items() if n > 0}
        if n_viol >= MAX_VIOLATIONS or (time.time() - start > budget and not unseen):
            stop = True
        feed()
    for _ in workers:
        tasks.put(None)
    deadline = time.time() + (20 if os.environ.get("VF_COV") else 3)
    for w in workers:
        w.join(max(0.0, deadline - time.time()))
        if w.is_alive():
            w.kill()
    return res, infra, len(cases)


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="vf_")
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["TMPDIR"] = scratch
    try:
        return _main(args, tier, seed, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(args, tier, seed, start):
    import numpy as np

    prop = args.prop.upper()
    name = prop.lower()
    module = importlib.import_module(f"vf.checks.{name}")

    if args.replay:
        with open(args.replay) as f:
            cases = [json.load(f)["case"]]
    else:
        rng = np.random.default_rng([seed, int(prop[1:]), 0 if tier == "quick" else 1])
        cases = list(module.cases(tier, rng))

    results, infra, n_planned = run_cases(
        name, cases, tier, () if args.replay else getattr(module, "REQUIRED", [])
    )

    known = {k["id"]: k for k in load_known() if k["property"] == prop}
    monitors, features, max_dev = Counter(), Counter(), {}
    signatures, violations, samples, known_hits = set(), [], [], []
    for r in results:
        monitors.update(r["monitors"])
        features.update(r["features"])
        for k, v in r["max_dev"].items():
            max_dev[k] = max(max_dev.get(k, 0.0), v)
        kid = r["case"].get("known")
        if r["status"] == "violation":
            entry = known.get(kid) if kid else None
            if entry and entry["signature"] in r["msg"]:
                known_hits.append((entry, r))
            else:
                violations.append(r)
        elif r["status"] == "ok" and r["nontrivial"]:
            signatures.add(r["signature"])
            if r["sample"] is not None and len(samples) < 3:
                samples.append({"case": r["case"], **r["sample"]})

    replay_paths = []
    if not args.replay:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for r in violations[:3]:
            h = hashlib.sha256(json.dumps(_clean(r["case"])).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(
                    _clean(
                        {
                            "property": prop,
                            "case": r["case"],
                            "message": r["msg"],
                            "details": r.get("details", {}),
                            "replay_command": f"bash run.sh {prop} --replay {path}",
                        }
                    ),
                    f,
                    indent=1,
                )
            replay_paths.append(path)

    for entry, _ in known_hits:
        print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    for i, r in enumerate(violations[:3]):
        path = replay_paths[i] if replay_paths else args.replay
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {r['msg']}")
        for k, v in r.get("details", {}).items():
            print(f"    {k}: {v}")

    n_eval = sum(r["status"] in ("ok", "violation") for r in results)
    missing = [m for m in getattr(module, "REQUIRED", []) if monitors[m] == 0]
    if not args.replay:
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": n_eval,
                "distinct_nontrivial": len(signatures),
                "rule": module.RULE,
                "samples": samples or [{"case": c} for c in cases[:1]],
                "planned_cases": n_planned,
                "monitor_observations": dict(sorted(monitors.items())),
                "features_seen": dict(sorted(features.items())),
                "largest_deviation_in_units_of_tolerance": max_dev,
                "known_findings_seen": [e["id"] for e, _ in known_hits],
                "inconclusive": infra[:5],
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - start, 2),
            "violations": len(violations),
        }
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f"{prop}.json"), "w") as f:
            json.dump(_clean(evidence), f, indent=1)

    if violations:
        return 1
    if infra or n_eval == 0 or (missing and not args.replay):
        print(f"INCONCLUSIVE property={prop} missing={missing} infra={infra[:3]}")
        return 2
    print(
        f"OK property={prop} tier={tier} evaluations={n_eval}/{n_planned} "
        f"distinct={len(signatures)} observations={sum(monitors.values())} "
        f"wall={time.time() - start:.1f}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
