"""Generic driver: sub-checks, sharded Hypothesis runs, shrinking, replay files, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import logging
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

REGISTRY = collections.OrderedDict()  # (property, sub) -> Sub


class Violation(AssertionError):
    """The property does not hold for the case."""


class Hang(Violation):
    """Running the case did not end: reported as it is, shrinking would take the same time again and again."""


class HarnessError(Exception):
    """The machinery (not the code under test) is wrong."""


class Discard(Exception):
    """Case outside of the domain; counted as trivial."""


class Sub:
    def __init__(self, prop, name, gen, check, quick, thorough, rule, stateful=False):
        self.prop, self.name, self.gen, self.check = prop, name, gen, check
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.stateful = stateful


def sub(prop, name, gen, quick, thorough, rule):
    """Decorator: register check function of (case) -> truthy when the case is non-trivial.

    gen: zero-argument callable returning Hypothesis strategy of JSON-able cases.
    The check may return a list of labels; an empty list or None or False means trivial.
    """

    def deco(fn):
        REGISTRY[(prop, name)] = Sub(prop, name, gen, fn, quick, thorough, rule)
        return fn

    return deco


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=repr)


def eq(got, want, what="", **ctx):
    """Strict comparison: equality and same types all the way down."""
    if not same(got, want):
        lines = ["%s: got %s" % (what or "result", short(got)), "want %s" % short(want)]
        lines += ["%s: %s" % (k, short(v)) for k, v in ctx.items()]
        raise Violation("\n".join(lines))


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(map(_kt, a)) == sorted(map(_kt, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def _kt(k):
    return type(k).__name__ + repr(k)


def ensure(cond, what, **ctx):
    if not cond:
        raise Violation("\n".join([what] + ["%s: %s" % (k, short(v)) for k, v in ctx.items()]))


def short(x, n=1500):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)


def load_checks():
    folder = os.path.join(HERE, "checks")
    for fname in sorted(os.listdir(folder)):
        if fname.endswith(".py") and fname != "__init__.py":
            importlib.import_module("checks." + fname[:-3])


def derive(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


# --------------------------------------------------------------------------- worker


class _Hide:
    """Libraries of the tools that the environment of the code under test does not have."""

    def find_spec(self, name, path=None, target=None):
        if name == "numpy":
            raise ModuleNotFoundError("No module named 'numpy'", name="numpy")


def setup_environment(scratch):
    """Point the interpreter at the repository's current tree."""
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
        sys.meta_path.insert(0, _Hide())
    sys.path.insert(0, REPO)
    os.environ["TTPCACHEFOLDER"] = scratch
    os.environ["VERIF_SCRATCH"] = scratch
    logging.disable(logging.CRITICAL)
    import ttp

    where = os.path.realpath(ttp.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("imported ttp from %s, not from %s" % (where, REPO))


CASE_LIMIT = 120  # seconds; cases take milliseconds, the ones with processes seconds


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("a single case took over %d s" % CASE_LIMIT)


def run_one(sub_, case):
    """Run a single case. Returns labels. Raises Violation on violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        return sub_.check(case)
    except CaseTimeout as e:
        raise Hang("%s\n%s" % (e, traceback.format_exc()))
    except (Violation, Discard, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except SystemExit as e:
        raise Violation("SystemExit raised: %r" % (e,))
    except BaseException as e:
        if isinstance(e, OSError) and e.errno in (28, 24, 12):  # no space, no fds, no memory
            raise HarnessError("environment: %r" % (e,))
        if type(e).__module__.split(".")[0] == "hypothesis":
            raise
        raise Violation("unexpected exception\n" + traceback.format_exc())
    finally:
        signal.alarm(0)


def _closure(body):
    def test(case):
        body(case)

    return test


def worker(prop, tier, index, nworkers, seed, out, only=None, scale=1.0):
    scratch = tempfile.mkdtemp(prefix="ttpverif_")
    result = {"subs": {}, "violation": None, "error": None}
    devnull = open(os.devnull, "w")
    real_stdout, real_stderr = sys.stdout, sys.stderr
    hung = False
    try:
        setup_environment(scratch)
        load_checks()
        cwd = os.path.join(scratch, "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        import hypothesis
        import hypothesis.internal.conjecture.engine as engine
        from hypothesis import HealthCheck, Phase, given, settings

        # Hypothesis follows each new case with mutants of it, that swap integers drawn. Most of these draws decide
        # between a few options, so that over half of all the cases came out as repetitions of earlier ones.
        if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None

        for (p, name), s in REGISTRY.items():
            if p != prop or (only and name not in only):
                continue
            total = s.quick if tier == "quick" else s.thorough
            total = max(1, int(total * scale))
            n = total // nworkers + (1 if index < total % nworkers else 0)
            if n == 0:
                continue
            stats = {
                "evaluations": 0,
                "nontrivial": set(),
                "labels": collections.Counter(),
                "samples": [],
                "rule": s.rule,
            }
            last = {}

            def body(case, s=s, stats=stats, last=last):
                if "hang" in last:
                    return
                sys.stdout, sys.stderr = devnull, devnull
                try:
                    stats["evaluations"] += 1
                    last["case"] = case
                    try:
                        labels = run_one(s, case)
                    except Discard:
                        stats["labels"]["discarded"] += 1
                        return
                    except Violation as e:
                        last["violation"] = {"sub": s.name, "case": case, "message": str(e)}
                        if isinstance(e, Hang):
                            last["hang"] = True
                        raise
                finally:
                    sys.stdout, sys.stderr = real_stdout, real_stderr
                if labels:
                    text = jdump(case)
                    stats["nontrivial"].add(hashlib.md5(text.encode()).hexdigest())
                    if labels is not True:
                        stats["labels"].update(labels)
                    if len(stats["samples"]) < 2 and len(text) < 3000 and stats["evaluations"] > 20:
                        stats["samples"].append(case)

            test = given(s.gen())(_closure(body))
            test = settings(
                max_examples=n,
                deadline=None,
                database=None,
                print_blob=False,
                report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                    HealthCheck.nested_given,
                ],
            )(test)
            test = hypothesis.seed(derive(seed, prop, name, index))(test)
            t0 = time.time()
            try:
                sys.stdout, sys.stderr = devnull, devnull
                try:
                    test()
                finally:
                    sys.stdout, sys.stderr = real_stdout, real_stderr
            except Violation:
                result["violation"] = last["violation"]
            except BaseException as e:
                if "violation" in last and type(e).__name__.startswith("Flaky"):
                    # seen once, not on the immediate re-run: still a real execution of the code
                    result["violation"] = dict(last["violation"])
                    if "hang" not in last:
                        result["violation"]["message"] += "\n(not reproduced on an immediate re-run)"
                else:
                    result["error"] = "sub-check %s: %s" % (name, traceback.format_exc())
            hung = hung or "hang" in last
            stats["nontrivial"] = sorted(stats["nontrivial"])
            stats["labels"] = dict(stats["labels"])
            stats["wall_s"] = round(time.time() - t0, 3)
            result["subs"][name] = stats
            if result["violation"] or result["error"]:
                break
    except BaseException:
        result["error"] = traceback.format_exc()
    finally:
        os.chdir(HERE)
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out + ".tmp", "w") as f:
        json.dump(result, f, default=repr)
    os.replace(out + ".tmp", out)
    if hung:
        os._exit(0)  # do not wait for processes the code under test has started
    return 0


# --------------------------------------------------------------------------- runner


def run_property(prop, tier, seed, only=None, nworkers=None, scale=1.0):
    t0 = time.time()
    base = HERE
    if REPO != "/repo":  # development runs against a copy leave the records of the real runs alone
        base = os.path.join(tempfile.gettempdir(), "ttpverif_other")
    evidence_dir = os.path.join(base, "evidence")
    replay_dir = os.path.join(base, "replays")
    os.makedirs(evidence_dir, exist_ok=True)
    os.makedirs(replay_dir, exist_ok=True)
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="ttpverif_run_")
    procs = []
    limit = 840 if tier == "quick" else float(os.environ.get("VERIF_LIMIT", "14400"))
    errors, violations = [], []
    results = []
    try:
        for i in range(nworkers):
            out = os.path.join(tmp, "w%d.json" % i)
            cmd = [sys.executable, "-B", "-W", "ignore", os.path.join(HERE, "run.py"), "--worker", prop,
                   "--tier", tier, "--seed", str(seed), "--index", str(i), "--nworkers", str(nworkers),
                   "--out", out, "--scale", str(scale)]
            if only:
                cmd += ["--only", ",".join(only)]
            log = open(os.path.join(tmp, "w%d.log" % i), "w+")
            procs.append((i, subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                              start_new_session=True, env=dict(os.environ, TMPDIR=tmp)), out, log))
        pending = list(procs)
        while pending:
            time.sleep(0.05)
            for item in list(pending):
                i, p, out, log = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    results.append(r)
                    if r["error"]:
                        errors.append("worker %d: %s" % (i, r["error"]))
                    if r["violation"]:
                        violations.append(r["violation"])
                else:
                    log.seek(0)
                    errors.append("worker %d exited %s without a result: %s" % (i, p.returncode, log.read()[-3000:]))
            if violations:
                # give workers about to finish the same search a moment, then stop
                for item in pending:
                    _kill(item[1])
                break
            if time.time() - t0 > limit:
                errors.append("time limit of %s s reached: inconclusive" % limit)
                for item in pending:
                    _kill(item[1])
                break
    finally:
        for item in procs:
            _kill(item[1])
            item[3].close()
        shutil.rmtree(tmp, ignore_errors=True)

    load_rules = {}
    evaluations, distinct = 0, set()
    labels = collections.Counter()
    samples = []
    per_sub = {}
    for r in results:
        for name, st in r["subs"].items():
            evaluations += st["evaluations"]
            distinct.update(name + h for h in st["nontrivial"])
            labels.update({name + ": " + k: v for k, v in st["labels"].items()})
            load_rules[name] = st["rule"]
            d = per_sub.setdefault(name, {"evaluations": 0, "nontrivial": set(), "wall_s": 0.0, "samples": []})
            d["evaluations"] += st["evaluations"]
            d["nontrivial"].update(st["nontrivial"])
            d["wall_s"] = round(max(d["wall_s"], st["wall_s"]), 3)
            d["samples"] += st["samples"]
    for name, d in per_sub.items():
        d["distinct_nontrivial"] = len(d.pop("nontrivial"))
        samples += [{"sub_check": name, "case": c} for c in d.pop("samples")[:2]]

    shown = min(violations, key=lambda v: len(jdump(v["case"]))) if violations else None
    replay = None
    if shown:
        replay = os.path.join(replay_dir, "%s-%s.json" % (prop, shown["sub"].replace(" ", "_")))
        with open(replay, "w") as f:
            json.dump({"property": prop, "sub": shown["sub"], "case": shown["case"], "message": shown["message"]},
                      f, indent=1, sort_keys=True)
    known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "known" and still_fails(k)]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": " | ".join("%s: %s" % kv for kv in sorted(load_rules.items())) or "n/a",
            "samples": samples[:12],
            "sub_checks": per_sub,
            "labels": dict(sorted(labels.items())),
            "workers": nworkers,
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": [
            "code under test is imported from %s with a fresh, empty plugin cache folder" % REPO,
            "cases are drawn by Hypothesis %s from the generators in /verif/checks; nothing outside them is explored"
            % _hyp_version(),
        ],
        "violations": len(violations),
        "violation_details": [{"sub_check": v["sub"], "message": v["message"][:4000], "replay": replay} for v in violations],
        "known_findings": [k["what"] for k in known],
    }
    with open(os.path.join(evidence_dir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=repr)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s tier=%s seed=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, evaluations, len(distinct), time.time() - t0))
    for name, d in sorted(per_sub.items()):
        print("  %-28s %6d cases %6d non-trivial %6.1fs" % (
            name, d["evaluations"], d["distinct_nontrivial"], d["wall_s"]))
    if shown:
        print("violated sub-check: %s" % shown["sub"])
        print(shown["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if errors:
        for e in errors[:2]:
            print("ERROR " + e[-2500:], file=sys.stderr)
        return 2
    if evaluations == 0:
        print("ERROR no sub-check registered for %s" % prop, file=sys.stderr)
        return 2
    return 0


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def _hyp_version():
    try:
        for d in os.listdir(TOOLS):
            if d.startswith("hypothesis-") and d.endswith(".dist-info"):
                return d[len("hypothesis-"):-len(".dist-info")]
    except OSError:
        pass
    return "?"


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def still_fails(finding):
    """Run the recorded case of a known finding in its own process: True when it still breaks the property."""
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"property": finding["property"], "sub": finding["sub"], "case": finding["case"]}, f)
        p = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(HERE, "run.py"), "--replay", path],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=300)
        return p.returncode == 1
    finally:
        os.unlink(path)


def replay(path):
    path = os.path.abspath(path)
    with open(path) as f:
        rec = json.load(f)
    scratch = tempfile.mkdtemp(prefix="ttpverif_")
    try:
        setup_environment(scratch)
        load_checks()
        os.makedirs(os.path.join(scratch, "cwd"))
        os.chdir(os.path.join(scratch, "cwd"))
        s = REGISTRY[(rec["property"], rec["sub"])]
        print(json.dumps(rec["case"], indent=1)[:6000])
        try:
            labels = run_one(s, rec["case"])
        except Violation as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
        print("held", labels)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only")
    ap.add_argument("--worker")
    ap.add_argument("--index", type=int)
    ap.add_argument("--nworkers", type=int)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    try:
        a.seed = int(a.seed)
    except ValueError:
        a.seed = derive(a.seed)
    only = a.only.split(",") if a.only else None
    if a.worker:
        return worker(a.worker, a.tier, a.index, a.nworkers, a.seed, a.out, only, a.scale)
    if a.replay:
        return replay(a.replay)
    if a.list:
        scratch = tempfile.mkdtemp(prefix="ttpverif_")
        try:
            setup_environment(scratch)
            load_checks()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        for (p, n), s in REGISTRY.items():
            print(p, n, s.quick, s.thorough)
        return 0
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    return run_property(a.property, tier, a.seed, only, a.nworkers, a.scale)
