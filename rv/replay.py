"""python -m rv.replay FILE: run again the case a VIOLATION line points to."""
from __future__ import annotations

import importlib
import json
import os
import sys

from rv.run import import_pycid


def main(path: str) -> int:
    doc = json.load(open(path))
    import_pycid()
    from rv import monitor as mon

    module = importlib.import_module("rv.checks." + doc["property"].lower())
    m = mon.Monitor()
    case = doc["case"]
    import tempfile

    path0 = os.getcwd()
    os.chdir(tempfile.mkdtemp(prefix="rv-"))
    mon.run_case(module, case, m)
    os.chdir(path0)
    for v in m.violations:
        print(f"[{v['key']}] {v['message']}\n{json.dumps(v['witness'], indent=1)[:6000]}")
    print("reproduced" if m.violations else "not reproduced")
    return 1 if m.violations else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
