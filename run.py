#!/usr/bin/env python3
"""Entry point of every check.

  run.py <PROPERTY> [--tier quick|thorough] [--seed N]    run one property's check
  run.py --replay <file>                                   re-run one saved counterexample
  run.py --list                                            list the sub-checks

Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 error of the check itself.
"""
import os
import sys

sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

_ENV = {
    "PYTHONHASHSEED": "0",
    "TZ": "UTC",
    "PYTHONDONTWRITEBYTECODE": "1",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "VERIF_REEXEC": "1",
}
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    for name in ("PYTHONPATH", "PYTHONHOME", "TTPCACHEFOLDER", "TTP_TEMPLATES_DIR"):
        env.pop(name, None)
    env.update(_ENV)
    os.execve(VENV, [VENV, "-B", "-W", "ignore"] + [os.path.join(HERE, "run.py")] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
