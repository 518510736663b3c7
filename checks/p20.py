"""P20: TTP objects do not influence each other - alive together, used in turns, one inside another, or in threads."""
import copy
import sys
import threading

from checks import p19
from vlib import api, gen
from vlib.core import Discard, ensure, eq, sub

P = "P20"

MATCH = [x for x in p19.MATCH if "boom" not in x] + ["record('r1')", "set('r1')", "macro('m_state')", "macro('m_nested')", "lookup('tab', add_field='lk')", "append('tvar')", "c_match",
                                                   "macro('m_text')"]
GROUP = [x for x in p19.GROUP if x != "boom"] + ["macro('m_group')", "c_group", "record('x', 'rx')", "set('rx')", "set('r1')"]
INPUT = [x for x in p19.INPUT if x != "boom"]
OUTPUT = [x for x in p19.OUTPUT if x != "boom"] + ["m_out_fmt"]


def spec(d, i):
    k = lambda pool, n: [x for x in d.sample(pool, d.choice(n))]  # noqa: E731
    return {"id": "P%d" % (i if d.bool(80) else 0), "match": [k(MATCH, [0, 1, 2, 3]) for _ in range(3)], "group": k(GROUP, [0, 1, 1, 2]), "input": k(INPUT, [0, 0, 1]),
            "gout": None, "out": [x for x in k(OUTPUT, [0, 0, 1]) if x != "m_out_fmt"], "getters": d.bool(50), "templates": 1, "save_vars": d.bool(30), "custom": d.sample(["match", "group", "input", "output", "variable", "builtin", "macro"], d.int(0, 7)),
            "key_to_int": d.bool(30), "data": [], "vars": d.bool(50)}


@gen.cases
def interleaved(d):
    n = d.choice([2, 2, 3])
    specs = [spec(d, i) for i in range(n)]
    ops, serial = [], 0
    for i in d.shuffle(list(range(n))):
        ops.append([i, "create"])
    for _ in range(d.int(n, 4 * n)):
        i = d.int(0, n - 1)
        k = d.choice(["input", "input", "parse", "parse", "result", "clear", "lookup", "vars", "template", "clear_input", "format"])
        op = [i, k]
        if k == "input":
            serial += 1
            op.append(p19.plain_text(d, serial, 5))
        ops.append(op)
    pos = 0
    # templates and functions are there before anything is parsed
    for i in range(n):
        ops.append([i, "input", p19.plain_text(d, 100 + i, 5)])
    for i in d.shuffle(list(range(n))):
        ops += [[i, "parse"], [i, "result"]]
    del pos
    return {"specs": specs, "ops": ops, "nested": d.bool(20)}


FUNCS = """
def c_match(data, *args, **kwargs):
    return "<%s ID>" % data, {"cm": "ID"}
def c_group(data, *args, **kwargs):
    data["cg"] = "ID%d" % len(data)
    return data, None
def c_input(data, *args, **kwargs):
    return data.replace("kthree a", "kthree ID"), None
def c_output(data, *args, **kwargs):
    return {"ID": data} if isinstance(data, list) else [data, "ID"]
def c_var(text, name):
    return "ID %d chars" % len(text)
def upper(data):
    return data.upper() + "ID", None
def m_text(data):
    return "custom ID " + data
"""
MACRO = p19.MACRO + """
SEEN = []
def m_state(data):
    SEEN.append(data)
    return data, {'seen': len(SEEN), 'of': 'ID'}
def m_nested(data):
    from ttp import ttp
    inner = ttp(data="inner %s" % data, template="<vars>tvar = 'inner'</vars><macro>\\ndef m_text(data):\\n    return 'inner ' + data + _ttp_['vars']['tvar']\\n</macro>\\n<group name='i'>\\ninner {{ v | append(tvar) | macro('m_text') | record('r1') }}\\n</group>", log_level="CRITICAL")
    inner.parse(one=True)
    return data, {'nested': inner.result()[0][0]}
def m_group(data):
    data['mg'] = helper(len(data)) + 'ID' + _ttp_['vars']['tvar']
"""


class Runner:
    """One TTP object driven through its operations."""

    def __init__(self, spec_, folder):
        self.spec, self.folder, self.log = spec_, folder, []

    def do(self, op):
        k = op[1]
        s = self.spec
        ident = s["id"]
        if k == "create":
            self.p = api.new(vars={"given": "given " + ident} if s["vars"] else None, dynamic_path_key_to_int=s["key_to_int"])
            ns = {}
            exec(FUNCS.replace("ID", ident), ns)
            for scope, name in (("match", "c_match"), ("group", "c_group"), ("input", "c_input"), ("output", "c_output"), ("variable", "c_var"), ("builtin", "upper"), ("macro", "m_text")):
                if scope in s["custom"]:
                    self.p.add_function(ns[name], "match" if scope == "builtin" else scope, name)
            self.n_templates = 0
            self.template()
        elif k == "input":
            self.p.add_input(op[2], template_name=self.name)
        elif k == "parse":
            try:
                self.p.parse(one=True)
            except (ValueError, TypeError, AttributeError, KeyError) as e:
                self.log.append("%s: %s" % (type(e).__name__, e))
        elif k == "result":
            self.log.append(copy.deepcopy(self.p.result()))
        elif k == "format":
            self.log.append(self.p.result(format="pprint"))
        elif k == "clear":
            self.p.clear_result()
        elif k == "clear_input":
            self.p.clear_input()
        elif k == "lookup":
            self.p.add_lookup("tab", text_data="{'a': '%s', 'key1': {'k': '%s'}}" % (ident, ident), load="python")
        elif k == "vars":
            self.p.add_vars({"tvar": "added " + ident})
        elif k == "template":
            self.template()

    def template(self):
        text = p19.mixed_template(self.spec, self.folder).replace(p19.MACRO, MACRO)
        text = text.replace("'TV'", "'TV ID'").replace('"va"', '"va ID"').replace("{'n': 1}", "{'n': 'ID'}").replace("ID", self.spec["id"])
        self.name = "t%d" % self.n_templates
        self.n_templates += 1
        self.p.add_template(text, template_name=self.name)


def alone(case, folder):
    out = []
    for i, s in enumerate(case["specs"]):
        r = Runner(s, folder)
        for op in case["ops"]:
            if op[0] == i:
                r.do(op)
        out.append(r.log)
    return out


@sub(P, "in turns", interleaved, 2500, 80000, "two objects with results, whose parse calls alternate")
def check_turns(case):
    with api.Scratch() as folder:
        want = alone(case, folder)
        runners = [Runner(s, folder) for s in case["specs"]]
        for op in case["ops"]:
            runners[op[0]].do(op)
        got = [r.log for r in runners]
    for i, (g, w) in enumerate(zip(got, want)):
        eq(g, w, "results of object %d of %d used in turns" % (i, len(got)), spec=case["specs"][i], ops=case["ops"], template=p19.mixed_template(case["specs"][i], ""))
    return ["%d objects" % len(want)] if sum(len(str(w[-1])) > 8 for w in want) > 1 else None


@gen.cases
def threads(d):
    n = d.choice([2, 3, 4])
    specs = [spec(d, i) for i in range(n)]
    if d.bool(30):
        specs = [dict(specs[0], id="P%d" % i) for i in range(n)]
    ops = []
    for i in range(n):
        ops.append([i, "create"])
        for k in range(d.int(1, 3)):
            for j in range(d.int(1, 3)):
                ops.append([i, "input", p19.plain_text(d, 100 * i + 10 * k + j, 8)])
            ops += [[i, "parse"], [i, d.choice(["result", "result", "clear", "format"])]]
        ops += [[i, "parse"], [i, "result"]]
    return {"specs": specs, "ops": ops, "create_in_thread": d.bool(60)}


@sub(P, "threads", threads, 900, 30000, "two or more threads with results")
def check_threads(case):
    with api.Scratch() as folder:
        want = alone(case, folder)
        runners = [Runner(s, folder) for s in case["specs"]]
        errors = []
        barrier = threading.Barrier(len(runners), timeout=60)

        def work(i, ops):
            try:
                barrier.wait()
                for op in ops:
                    runners[i].do(op)
            except BaseException as e:
                import traceback

                errors.append((i, repr(e), traceback.format_exc()))

        jobs = []
        for i in range(len(runners)):
            ops = [op for op in case["ops"] if op[0] == i]
            if not case["create_in_thread"]:
                runners[i].do(ops.pop(0))
            jobs.append(threading.Thread(target=work, args=(i, ops), daemon=True))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in jobs:
                t.start()
            for t in jobs:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        ensure(not any(t.is_alive() for t in jobs), "a thread does not end")
        ensure(not errors, "a thread raised an error", errors=errors, specs=case["specs"])
        got = [r.log for r in runners]
    for i, (g, w) in enumerate(zip(got, want)):
        eq(g, w, "results of object %d of %d used in threads" % (i, len(got)), spec=case["specs"][i], template=p19.mixed_template(case["specs"][i], ""))
    return ["%d threads" % len(want)] if sum(len(str(w[-1])) > 8 for w in want) > 1 else None
