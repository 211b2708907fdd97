"""Writes /verif/MANIFEST.json from the property modules that exist."""

import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt import boot  # noqa: E402,F401

PY = "/opt/venv/bin/python"
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "pbt", "props", pid.lower() + ".py")):
        missing.append(dict(property=pid, reason="No check has been built for this property yet."))
        continue
    mod = importlib.import_module(f"pbt.props.{pid.lower()}")
    checks.append(
        dict(
            property=pid,
            quick_cmd=f"{PY} check.py {pid} --tier quick",
            thorough_cmd=f"{PY} check.py {pid} --tier thorough",
            technique=mod.TECHNIQUE,
            level="exploration",
            level_note=mod.LEVEL_NOTE,
        )
    )
manifest = dict(
    version=1,
    setup_cmd=f"{PY} tools/selftest.py",
    checks=checks,
    not_applicable=missing,
    notes="Checks are Hypothesis-driven; see DESIGN.md. No hooks in /repo are needed.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [m["property"] for m in missing])
