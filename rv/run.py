"""python -m rv.run Cnn: run one property's check on /repo's working tree."""
from __future__ import annotations

import fcntl
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings
from typing import Any, Dict, Iterator, List

REPO = os.environ.get("RV_REPO", "/repo")  # (the override is for trying the checks on scratch copies)
WORKERS = int(os.environ.get("RV_WORKERS", "8"))
CASE_CPU = 120  # seconds of CPU per case before the watchdog calls it endless
SOFT_WALL = {"quick": 420, "thorough": 800}


def import_pycid() -> Any:
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)
    import pycid

    if not os.path.realpath(pycid.__file__).startswith(REPO + "/"):
        raise SystemExit(f"pycid was imported from {pycid.__file__}, not {REPO}")
    return pycid


def _alarm(signum: int, frame: Any) -> None:
    from rv.monitor import CaseTimeout

    raise CaseTimeout()


def take(fd: int, n: int) -> Iterator[int]:
    """Case numbers handed out one at a time to whichever worker is free (a shared counter in an open file)."""
    while True:
        fcntl.lockf(fd, fcntl.LOCK_EX)
        try:
            i = int(os.pread(fd, 20, 0) or b"0")
            os.pwrite(fd, b"%d" % (i + 1), 0)
        finally:
            fcntl.lockf(fd, fcntl.LOCK_UN)
        if i >= n:
            return
        yield i


def worker(module: Any, cases: List[Dict[str, Any]], counter: int, deadline: float, out: str) -> None:
    from rv.monitor import Monitor, run_case

    m = Monitor()
    skipped = 0
    signal.signal(signal.SIGVTALRM, _alarm)
    workdir = tempfile.mkdtemp(prefix="rv-")
    os.chdir(workdir)
    for number in take(counter, len(cases)):
        case = cases[number]
        if time.time() > deadline:
            skipped += 1
            continue
        signal.setitimer(signal.ITIMER_VIRTUAL, getattr(module, "CASE_CPU", CASE_CPU))
        try:
            run_case(module, case, m)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if skipped:
        m.event("cases_skipped_on_time_cap", skipped)
    res = m.dump()
    res["skipped"] = skipped
    with open(out, "wb") as f:
        pickle.dump(res, f)
    os.chdir("/")
    import shutil

    shutil.rmtree(workdir, ignore_errors=True)


def run_pool(module: Any, cases: List[Dict[str, Any]], deadline: float) -> List[Dict[str, Any]]:
    d = tempfile.mkdtemp(prefix="rv-pool-")
    pids = {}
    counter = os.open(os.path.join(d, "next"), os.O_RDWR | os.O_CREAT)
    n = max(1, min(WORKERS, len(cases)))
    sys.stdout.flush()
    for w in range(n):
        out = os.path.join(d, f"{w}.pkl")
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if not os.environ.get("RV_STDERR"):
                    os.dup2(devnull, 2)
                worker(module, cases, counter, deadline, out)
            except BaseException:
                with open(out + ".err", "w") as f:
                    f.write(traceback.format_exc())
                code = 3
            os._exit(code)
        pids[pid] = out
    results, errors = [], []
    for _ in range(n):
        pid, status = os.wait()
        out = pids[pid]
        if status != 0 or not os.path.exists(out):
            err = open(out + ".err").read() if os.path.exists(out + ".err") else ""
            errors.append(f"worker ended with status {status}: {err}")
        else:
            with open(out, "rb") as f:
                results.append(pickle.load(f))
    import shutil

    shutil.rmtree(d, ignore_errors=True)
    if errors:
        print("ERROR: " + errors[0])
        raise SystemExit(2)
    return results


def main(argv: List[str]) -> int:
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import_pycid()
    from rv import monitor as mon

    module = importlib.import_module("rv.checks." + prop.lower())
    cases = list(module.cases(tier, seed))
    results = run_pool(module, cases, t0 + SOFT_WALL[tier])
    m = mon.Monitor()
    skipped = 0
    for r in results:
        m.merge(r)
        skipped += r["skipped"]
    if hasattr(module, "finish"):
        module.finish(m, tier)

    known = mon.known_findings(prop)
    new: Dict[str, Dict[str, Any]] = {}
    for v in m.violations:
        if v["key"] not in known:
            new.setdefault(v["key"], v)
    hit = sorted({v["key"] for v in m.violations if v["key"] in known})
    wall = time.time() - t0
    mon.write_evidence(
        prop,
        {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": m.evaluations,
                "distinct_nontrivial": len(m.distinct),
                "rule": module.RULE,
                "samples": m.samples[:4] or ["none"],
                "cases": len(cases),
                "cases_not_run_time_cap": skipped,
                "events": dict(sorted(m.events.items())),
                "inconclusive_cases": m.inconclusive[:20],
                "violation_counts": dict(m.vcount),
                "known_findings_seen": hit,
            },
            "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2),
            "violations": len(new),
        },
    )
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    print(
        f"{prop} {tier} seed={seed}: {m.evaluations} monitored executions, {len(m.distinct)} distinct, "
        f"{len(cases)} cases ({skipped} not run), {wall:.1f} s; events: "
        + ", ".join(f"{k}={v}" for k, v in sorted(m.events.items()))
    )
    if new:
        for n, (key, v) in enumerate(sorted(new.items())):
            path = mon.write_replay(prop, tier, seed, v, n)
            print(f"  [{key}] x{m.vcount[key]}: {v['message'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    bad = []
    for name, least in getattr(module, "MIN_EVENTS", {}).items():
        if m.events.get(name, 0) < least:
            bad.append(f"{name}={m.events.get(name, 0)} < {least}")
    if bad:
        print(f"INCONCLUSIVE {prop}: " + "; ".join(bad))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
