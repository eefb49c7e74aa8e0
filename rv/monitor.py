"""Event accounting, verdicts, known findings, replay files and evidence.

Verdicts are three-valued: a violation (exit 1), held on what was observed (exit 0) or inconclusive (exit 2:
the deciding monitor saw fewer events than the check demands, or the harness itself failed).
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import pathlib
import re
import traceback
from typing import Any, Dict, List, Optional

from rv.gen import NoSpec

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
FINDINGS = ROOT / "KNOWN_FINDINGS.txt"


def jsonable(x: Any) -> Any:
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        seq = sorted(x, key=repr) if isinstance(x, (set, frozenset)) else x
        return [jsonable(v) for v in seq]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def digest(x: Any) -> str:
    return hashlib.sha1(json.dumps(jsonable(x), sort_keys=True).encode()).hexdigest()[:16]


class Refuted(Exception):
    """Raised by a check to end a case after a violation that makes the rest of it meaningless."""


class Monitor:
    """Collects what one worker observed."""

    MAX_KEPT = 5

    def __init__(self) -> None:
        self.events: collections.Counter = collections.Counter()
        self.evaluations = 0
        self.distinct: set = set()
        self.violations: List[Dict[str, Any]] = []
        self.vcount: collections.Counter = collections.Counter()
        self.samples: List[Any] = []
        self.inconclusive: List[str] = []
        self.case: Optional[Dict[str, Any]] = None

    # -- what was observed ------------------------------------------------------------------------------------
    def event(self, name: str, n: int = 1) -> None:
        self.events[name] += n

    def evaluated(self, what: Any, nontrivial: bool = True) -> None:
        """One monitored execution; `what` identifies it for the distinct count."""
        self.evaluations += 1
        if nontrivial:
            d = digest(what)
            if d not in self.distinct:
                self.distinct.add(d)
                if len(self.samples) < 2:
                    self.samples.append(jsonable(what))

    # -- verdicts ---------------------------------------------------------------------------------------------
    def violation(self, key: str, message: str, witness: Any = None) -> None:
        self.vcount[key] += 1
        if self.vcount[key] <= 2 and (len(self.violations) < 40 or self.vcount[key] == 1):
            self.violations.append(
                {"key": key, "message": message, "witness": jsonable(witness), "case": jsonable(self.case)}
            )

    def expect(self, ok: bool, key: str, message: str, witness: Any = None) -> bool:
        self.event("assertions")
        if not ok:
            self.violation(key, told(message), told(witness))
        return bool(ok)

    def require(self, ok: bool, key: str, message: str, witness: Any = None) -> None:
        if not self.expect(ok, key, message, witness):
            raise Refuted(key)

    def merge(self, other: Dict[str, Any]) -> None:
        self.events.update(other["events"])
        self.evaluations += other["evaluations"]
        self.distinct |= set(other["distinct"])
        self.violations += other["violations"]
        self.vcount.update(other["vcount"])
        self.samples += other["samples"]
        self.inconclusive += other["inconclusive"]

    def dump(self) -> Dict[str, Any]:
        return {
            "events": dict(self.events),
            "evaluations": self.evaluations,
            "distinct": sorted(self.distinct),
            "violations": self.violations,
            "vcount": dict(self.vcount),
            "samples": self.samples,
            "inconclusive": self.inconclusive,
        }


def told(x: Any) -> Any:
    """A message or witness, which may be a function that describes the broken model and fails on it."""
    try:
        return x() if callable(x) else x
    except Exception as e:  # noqa: BLE001
        return f"(describing it fails with {type(e).__name__}: {say(e)})"


def say(e: BaseException) -> str:
    """The text of an exception, which may hold an object that itself cannot be printed."""
    try:
        return str(e)
    except Exception as again:  # noqa: BLE001
        return f"(its text fails with {type(again).__name__})"


def run_case(module: Any, case: Dict[str, Any], m: Monitor) -> None:
    """Run one case; an exception that escapes is a violation: no property lets the code crash on a valid input."""
    m.case = case
    try:
        module.run_case(case, m)
    except Refuted:
        pass
    except CaseTimeout:
        m.event("watchdog")
        m.violation("does-not-end", "the case used its whole CPU budget, hundreds of times what such cases need")
    except NoSpec:
        m.event("no_model_generated")
    except MemoryError:
        m.inconclusive.append(f"case {case} ran out of memory")
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        here = [f for f in tb if "/pycid/" in f.filename]
        where = f"{pathlib.Path(here[-1].filename).name}:{here[-1].name}" if here else "harness"
        m.violation(
            f"crash:{type(e).__name__}:{where}",
            f"unexpected {type(e).__name__}: {say(e)}",
            {"traceback": traceback.format_exc()[-3000:]},
        )
    finally:
        m.case = None


class CaseTimeout(BaseException):
    pass


# -- known findings -------------------------------------------------------------------------------------------------
def known_findings(prop: str) -> Dict[str, str]:
    """key -> text of the findings recorded (not fixed) for this property."""
    out: Dict[str, str] = {}
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            mt = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if mt and mt.group(1) == prop:
                out[mt.group(2)] = mt.group(3)
    return out


def write_replay(prop: str, tier: str, seed: int, v: Dict[str, Any], n: int) -> str:
    d = EVIDENCE / "replay"
    d.mkdir(parents=True, exist_ok=True)
    path = d / f"{prop}-{tier}-{seed}-{n}.json"
    path.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed, **v}, indent=1))
    return str(path)


def write_evidence(prop: str, doc: Dict[str, Any]) -> None:
    EVIDENCE.mkdir(exist_ok=True)
    tmp = EVIDENCE / f".{prop}.{os.getpid()}"
    tmp.write_text(json.dumps(doc, indent=1))
    os.replace(tmp, EVIDENCE / f"{prop}.json")
