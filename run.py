#!/opt/venv/bin/python
"""Run one check:  run.py C01 [--tier quick|thorough] [--replay FILE] [--space NAME [--case N]]"""
import importlib
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

WANT = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent", "PYTHONHASHSEED": "0", "TZ": "UTC"}
if any(os.environ.get(k) != v for k, v in WANT.items()) or os.environ.get("PYTHONOPTIMIZE"):
    env = {**os.environ, **WANT}
    env.pop("PYTHONOPTIMIZE", None)
    env.pop("PYTHONPATH", None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from mc import engine  # noqa: E402

if __name__ == "__main__":
    engine.setup_path()
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
        engine.TIER = os.environ["VERIF_TIER"]
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    except Exception:
        # The code under test broke the definitions of the check: reported as such.
        mod = engine.broken_module()
    sys.exit(engine.main(prop, mod, sys.argv[2:]))
