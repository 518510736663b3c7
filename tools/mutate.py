"""Mutation analysis: which small changes of /repo/ttp do neither the checks nor the project's tests notice?

python3 tools/mutate.py cover                 lines every sub-check reaches -> OUT/cover.json
python3 tools/mutate.py run N SEED [FILE...]  N random mutants (of the files) -> OUT/results.jsonl
python3 tools/mutate.py show                  the survivors
Works on copies of /repo under OUT (/tmp/mut); never writes in /repo or evidence/.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import queue

OUT = os.environ.get("MUT_OUT", "/tmp/mut")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"

RUNNER = r'''
import sys, os, json, random, tempfile, time, importlib, shutil
sys.path.insert(0, %(here)r); sys.dont_write_bytecode = True
from vlib import core
scratch = tempfile.mkdtemp(prefix="mutrun")
core.setup_environment(scratch); os.makedirs(scratch + "/cwd"); os.chdir(scratch + "/cwd")
from vlib import gen
job = json.load(sys.stdin)
for p in sorted({p for p, _ in job["subs"]}):
    importlib.import_module("checks." + p.lower())
known = core.load_known() if hasattr(core, "load_known") else []
out = {"killed": None}
cover = {}
if job.get("cover"):
    mon = sys.monitoring
    mon.use_tool_id(3, "cov")
    hits = set()
    root = os.path.join(job["repo"], "ttp") + os.sep
    def line(code, no):
        if code.co_filename.startswith(root):
            hits.add((code.co_filename[len(root):], no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
try:
    for p, name in job["subs"]:
        s = core.REGISTRY[(p, name)]
        rnd = random.Random("%%s-%%s-%%s" %% (job["seed"], p, name))
        if job.get("cover"):
            hits.clear(); mon.restart_events()
        t = time.time()
        for i in range(job["cases"]):
            if time.time() - t > job["seconds"]:
                break
            d = gen.Seeded(rnd.randrange(2**62))
            case = json.loads(json.dumps(s.gen.fn(d)))
            try:
                core.run_one(s, case)
            except core.Discard:
                pass
            except core.Violation as e:
                if core.is_known(p, name, case, str(e)) if hasattr(core, "is_known") else False:
                    continue
                out["killed"] = [p, name, i, str(e)[-300:]]
                break
            except BaseException as e:
                out["killed"] = [p, name, i, repr(e)[:300]]
                break
        if job.get("cover"):
            cover[p + " " + name] = sorted(hits)
        if out["killed"]:
            break
finally:
    shutil.rmtree(scratch, ignore_errors=True)
out["cover"] = cover
json.dump(out, sys.__stdout__)
sys.__stdout__.flush()
os._exit(0)
'''


def subs():
    r = subprocess.run([PY, "-B", "run.py", "--list"], cwd=HERE, capture_output=True, text=True)
    out = []
    for row in r.stdout.splitlines():
        p, rest = row.split(" ", 1)
        out.append((p, rest.rsplit(" ", 2)[0]))
    return out


def job(repo, subs_, cases, seconds, cover=False, seed=1, timeout=900):
    env = dict(os.environ, VERIF_REPO=repo, PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    data = json.dumps({"repo": repo, "subs": subs_, "cases": cases, "seconds": seconds, "cover": cover, "seed": seed})
    p = subprocess.Popen([PY, "-B", "-W", "ignore", "-c", RUNNER % {"here": HERE}], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, env=env, cwd="/tmp", start_new_session=True)
    try:
        o, e = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return {"killed": ["timeout", "", 0, ""]}
    try:
        return json.loads(o[o.index('{"killed"'):])
    except ValueError:
        return {"killed": ["crash", "", 0, (o + e)[-400:]]}


# ------------------------------------------------------------------ mutants
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    src = open(path, encoding="utf-8").read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    raw = [x.encode() for x in lines]
    for x in raw:
        starts.append(starts[-1] + len(x))
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, n.lineno, what))

    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):  # logging is nobody's property
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n.value.func).startswith(("log.", "logging.")):
            for m in ast.walk(n):
                skip.add(m)
    for n in ast.walk(tree):
        if n in skip or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP.get(type(n.ops[0]))
            if op:
                put(n, "%s %s %s" % (text(n.left), op, text(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            word = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + word.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                word2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + word2.join("(%s)" % text(v) for v in rest) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            put(n, "0", "minus")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (%s))" % text(n.test), "negate")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, str(n.value + 1), "int")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith(".copy") and not n.args:
                put(n, "(%s)" % f[:-5], "no copy")
            elif f in ("copy.deepcopy", "copy.copy", "deepcopy", "dict", "list", "str", "sorted", "set") and len(n.args) == 1 and not n.keywords:
                put(n, "(%s)" % text(n.args[0]), "no " + f)
            elif f.split(".")[-1] in ("strip", "rstrip", "lstrip", "lower", "upper") and isinstance(n.func, ast.Attribute):
                put(n, text(n.func.value), "no " + f.split(".")[-1])
            for i, k in enumerate(n.keywords):
                if k.arg and isinstance(n.func, (ast.Name, ast.Attribute)):
                    parts = [text(a) for a in n.args] + [("%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value)) for j, q in enumerate(n.keywords) if j != i]
                    put(n, "%s(%s)" % (f, ", ".join(parts)), "drop keyword " + k.arg)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, text(n.left), "drop right")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            put(n, "pass", "drop statement")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    res = []
    for a, b, new, no, what in out:
        res.append({"file": os.path.relpath(path, REPO), "a": a, "b": b, "new": new, "line": no, "what": what, "old": data[a:b].decode()})
    return res


def tests(copy):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8", HOME=copy)
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60", "-W", "ignore"], cwd=os.path.join(copy, "test", "pytest"), env=env, capture_output=True, text=True, timeout=180)
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(os.path.join(copy, "test", "pytest", "Output"), ignore_errors=True)
    return r.returncode == 0


def main():
    os.makedirs(OUT, exist_ok=True)
    cmd = sys.argv[1]
    cover_path = os.path.join(OUT, "cover.json")
    if cmd == "cover":
        cov = {}
        with ThreadPoolExecutor(8) as ex:
            for s, r in zip(subs(), ex.map(lambda s: job(REPO, [s], 150, 25, True), subs())):
                if r["killed"]:
                    print("!!", s, r["killed"])
                cov.update(r.get("cover", {}))
        json.dump(cov, open(cover_path, "w"))
        print(len(cov), "subs", len({tuple(x) for v in cov.values() for x in v}), "lines")
        return
    if cmd == "show":
        for row in open(os.path.join(OUT, "results.jsonl")):
            m = json.loads(row)
            if m["fate"] == "survived":
                print("%s:%d [%s]\n    - %s\n    + %s" % (m["file"], m["line"], m["what"], m["old"][:150], m["new"][:150]))
        return
    n, seed, files = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    cov = json.load(open(cover_path))
    by_line = {}
    for s, hits in cov.items():
        for f, no in hits:
            by_line.setdefault((f, no), []).append((s, len(hits)))
    pool = []
    for where, dirs, names in sorted(os.walk(os.path.join(REPO, "ttp"))):
        for x in sorted(names):
            if x.endswith(".py") and "python2" not in x and x != "load_python_exec_py2.py":
                rel = os.path.relpath(os.path.join(where, x), REPO)
                if not files or any(rel.startswith(f) for f in files):
                    pool += mutants(os.path.join(where, x))
    done = set()
    res_path = os.path.join(OUT, "results.jsonl")
    if os.path.exists(res_path):
        for row in open(res_path):
            m = json.loads(row)
            done.add((m["file"], m["a"], m["b"], m["new"]))
    pool = [m for m in pool if (m["file"], m["a"], m["b"], m["new"]) not in done]
    print(len(pool), "mutants to choose from", flush=True)
    random.Random(seed).shuffle(pool)
    pool = pool[:n]
    copies = queue.Queue()
    for i in range(8):
        c = os.path.join(OUT, "copy%d" % i)
        shutil.rmtree(c, ignore_errors=True)
        shutil.copytree(REPO, c, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__"))
        copies.put(c)

    def one(m):
        c = copies.get()
        path = os.path.join(c, m["file"])
        good = open(path, "rb").read()
        t = time.time()
        try:
            new = good[: m["a"]] + m["new"].encode() + good[m["b"]:]
            try:
                compile(new, path, "exec")
            except SyntaxError:
                m["fate"] = "invalid"
                return m
            open(path, "wb").write(new)
            rel = os.path.relpath(m["file"], "ttp")
            near = by_line.get((rel, m["line"]), [])
            order = [tuple(s.split(" ", 1)) for s, k in sorted(near, key=lambda x: x[1])]
            m["subs"] = len(order)
            if not order:  # reached at import only, if at all
                m["uncovered"] = True
                order = subs()
            r = job(c, order, 60 if near else 15, 4, timeout=400)
            if near and not r["killed"]:
                r = job(c, order, 1200, max(6, 90 / len(order)), seed=2, timeout=600)
            if r["killed"]:
                m["fate"], m["by"] = "killed", r["killed"]
            else:
                m["fate"] = "survived" if tests(c) else "tests only"
            return m
        finally:
            open(path, "wb").write(good)
            m["seconds"] = round(time.time() - t, 1)
            copies.put(c)

    counts = {}
    with ThreadPoolExecutor(8) as ex, open(res_path, "a") as f:
        for m in ex.map(one, pool):
            counts[m["fate"]] = counts.get(m["fate"], 0) + 1
            f.write(json.dumps(m) + "\n")
            f.flush()
    print(counts)
    for i in range(8):
        shutil.rmtree(os.path.join(OUT, "copy%d" % i), ignore_errors=True)


if __name__ == "__main__":
    main()
