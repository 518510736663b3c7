#!/usr/bin/env python3
"""Confirm planted bugs: patch applies, stable tests pass, demo 0 without / nonzero with, which checks catch it.

usage: seedcheck.py [id ...]   (all when none is given); --nochecks skips running the checks; --all runs every property
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable_ids():
    for key in ("stable", "passed", "tests", "stable_tests"):
        if isinstance(BASE.get(key), list):
            return set(BASE[key])
    return None


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def one(sid, flags):
    folder = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    out = {"id": sid, "property": meta["property"]}
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(folder, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = sh(["bash", os.path.join(demo, "demo.sh")], repo)
        out["demo_clean"] = r.returncode
        if r.returncode:
            out["demo_err"] = (r.stdout + r.stderr)[-600:]
        r = sh(["git", "apply", os.path.join(folder, "patch.diff")], repo)
        if r.returncode:
            out["apply"] = r.stderr[-300:]
            return out
        r = sh(["bash", os.path.join(demo, "demo.sh")], repo)
        out["demo_patched"] = r.returncode
        env = dict(os.environ, PYTHONPATH=repo, TTPCACHEFOLDER=tmp, PYTHONHASHSEED="0", TZ="UTC", HOME="/root",
                   PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore"],
               os.path.join(repo, "test", "pytest"), env)
        out["tests"] = r.stdout.strip().splitlines()[-1][-80:] if r.stdout.strip() else r.stderr[-200:]
        if "--nochecks" not in flags:
            props = [meta["property"]]
            if "--all" in flags:
                props = sorted(json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl")))
            caught = []
            for p in props:
                env = dict(os.environ, VERIF_REPO=repo)
                r = sh(["python3", "run.py", p], HERE, env, 1800)
                if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout:
                    m = re.search(r"violated sub-check: (\S+)", r.stdout)
                    caught.append(p + ":" + (m.group(1) if m else "?"))
                elif r.returncode:
                    caught.append(p + "=rc%d" % r.returncode)
            out["caught"] = caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def main():
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, flags), ids):
            ok = r.get("demo_clean") == 0 and r.get("demo_patched") and "failed" not in r.get("tests", "failed") and "apply" not in r
            print("%s %-28s %s tests[%s] caught=%s%s" % (
                "OK " if ok else "BAD", r["id"], r["property"], r.get("tests"), r.get("caught"),
                "" if ok else " " + json.dumps(r)), flush=True)


if __name__ == "__main__":
    main()
