"""(run once with /opt/venv/bin/python, the result is reviewed by hand and committed) Transcribe the bundled examples into rv/examples.json."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = ["/repo", str(ROOT)]
from rv.checks.c30 import seen  # noqa: E402
from rv.common import example_builders  # noqa: E402

doc = {name: seen(f()) for name, f in sorted(example_builders().items())}
(ROOT / "rv" / "examples.json").write_text("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in doc.items()) + "\n}\n")
print(len(doc))
