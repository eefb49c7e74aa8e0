"""(run with /opt/venv/bin/python) Write MANIFEST.json for the checks that exist."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
NOTE = {}
checks = []
na = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    d = json.loads(line)
    f = ROOT / "rv" / "checks" / (d["id"].lower() + ".py")
    if not f.exists():
        na.append({"property": d["id"], "reason": "the check is not built yet"})
        continue
    mod = importlib.import_module("rv.checks." + d["id"].lower())
    checks.append(
        {
            "property": d["id"],
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {d['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {d['id']}",
            "technique": getattr(mod, "TECHNIQUE", "runtime monitoring: reference-model oracle over generated and hostile workloads"),
            "level": "exploration",
            "level_note": getattr(
                mod,
                "LEVEL_NOTE",
                "Held on the executions counted in the evidence file; trusts the independent reference in rv/ref.py and the "
                "generator's reach (" + mod.__doc__.split(":", 1)[1].strip() + ").",
            ),
        }
    )
doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "All monitors are wrappers and oracles installed from /verif at run time; /repo carries no hooks, only fix: commits."}
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
