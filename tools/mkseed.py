#!/usr/bin/env python3
"""Write a planted bug folder: mkseed.py < spec.py, where spec.py defines SEEDS, a list of dictionaries
{id, property, edits: [(file, old, new)], demo: python text, needs, breaks}."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in the repository: 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
TTPCACHEFOLDER="$tmp" SCRATCH="$tmp" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def main():
    ns = {}
    exec(sys.stdin.read(), ns)
    for s in ns["SEEDS"]:
        tmp = tempfile.mkdtemp(prefix="mkseed_")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
            for f, old, new in s["edits"]:
                p = os.path.join(tmp, "r", f)
                text = open(p).read()
                if text.count(old) != 1:
                    raise SystemExit("%s: text found %d times in %s:\n%s" % (s["id"], text.count(old), f, old))
                open(p, "w").write(text.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=tmp + "/r", capture_output=True, text=True, check=True).stdout
        finally:
            shutil.rmtree(tmp)
        folder = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        open(os.path.join(folder, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        print(s["id"])


main()
