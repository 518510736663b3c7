"""P28: the cache of plugin functions never changes results, whatever is in it."""
import os
import pickle
import subprocess
import sys

from vlib import api, gen
from vlib.core import REPO, TOOLS, ensure, eq, sub

P = "P28"
TEMPLATE = """<vars>
name = "gethostname"
base = {"a": "1"}
</vars>
<lookup name="tab" load="python">{"10": {"x": "ten"}, "20": {"x": "twenty"}}</lookup>
<macro>
def twice(data):
    return data + data
</macro>
<group name="i*" %s>
interface {{ intf | %s }}
 vlan {{ vlan | %s }}
 {{ host | set(name) }}
</group>
<output %s/>"""
GROUP = ["", "containsall='vlan'", "contains='intf'", "set=\"name, 'b'\"", "macro='mg'", "sformat=\"string='v {intf}', add_field='s'\"", "to_int='vlan'", "lookup=\"'vlan', name='tab', add_field='l'\""]
INTF = ["ORPHRASE", "upper", "split('/')", "macro('twice')", "replace('Gi', 'Te') | lower", "resuball('Gi', 'X')", "contains('1') | upper", "exclude('2')", "joinmatches", "resuball('Gi', 'X') | truncate(1)", "append('x') | prepend('y')", "print | replaceall('Gi', 'X') | resub('1', '2')"]
VLAN = ["DIGIT", "to_int", "lookup('tab', add_field='l')", "rlookup('tab', add_field='l2')", "DIGIT | to_int", "record('r')", "let('z', 'w')", "void", "to_str | to_int", "record('r') | let('z', 'w')"]
OUT = ["format='raw'", "format='json'", "format='pprint'", "dict_to_list='key_name=k'", "format='yaml'", "traverse='i, strict=False'"]
TEXT = "sw1#show\ninterface Gi1/1\n vlan 10\ninterface Gi1/2\n vlan 20\ninterface Gi3/1\n vlan 30\n"


def fun(name):
    def custom(data, *args, **kwargs):
        return "%s of user" % name, {"custom": name}

    return custom


def fun_group(data, *args, **kwargs):
    return dict(data, user="function"), None


def fun_output(data, *args, **kwargs):
    return {"user": data}


# functions of users, with names that TTP functions have
CUSTOM = [("match", x) for x in ("truncate", "to_int", "resub", "resuball", "append", "lookup", "let", "print")] + [
    ("group", x) for x in ("contains", "to_int", "lookup")] + [("output", x) for x in ("traverse", "dict_to_list")] + [("formatters", x) for x in ("json", "raw")]


def run(choice):
    g, i, v, o, custom = choice
    t = TEMPLATE % (GROUP[g], INTF[i], VLAN[v], OUT[o])
    t = t.replace("</macro>", "\ndef mg(data):\n    data['m'] = 1\n    return data\n</macro>")
    p = api.new()
    for c in custom:
        scope, name = CUSTOM[c]
        p.add_function({"match": fun(name), "group": fun_group}.get(scope, fun_output), scope, name)
    p.add_template(t)
    p.add_input(TEXT)
    p.add_input(TEXT.replace("sw1", "sw2").replace("Gi", "Te"))
    p.parse(one=True)
    return p.result()


STATES = ["none", "valid", "valid", "cut", "empty", "garbage", "none_pickled", "list", "dict", "other_version", "other_python", "no_version", "no_class", "folder", "missing_folder", "not_a_folder", "text", "number"]


def choice(d):
    return [d.int(0, len(x) - 1) for x in (GROUP, INTF, VLAN, OUT)] + [d.sample(list(range(len(CUSTOM))), d.choice([0, 0, 1, 2, 5]))]


@gen.cases
def gen_cache(d):
    return {"state": d.choice(STATES), "cut": d.int(0, 999), "version": d.choice(["0.0.1", "", "0.11.0", "99"]), "seq": [choice(d) for _ in range(d.int(1, 3))], "again": d.choice([[], ["cut"], ["valid", "none"], ["dict"], ["keep"], ["keep"]])}


def put(state, folder, case):
    """Folder to use, with the cache in the state."""
    path = os.path.join(folder, "ttp_dict_cache.pickle")
    if state == "missing_folder":
        return os.path.join(folder, "no", "such")
    if state == "not_a_folder":
        api.write(os.path.join(folder, "plain"), "x")
        return os.path.join(folder, "plain")
    if state == "keep":
        return folder
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    if state == "none":
        return folder
    if state == "folder":
        os.mkdir(path)
        return folder
    os.environ["TTPCACHEFOLDER"] = folder
    for _ in range(2):  # the second time it is complete
        api.new()
    with open(path, "rb") as f:
        good = f.read()
    content = {"valid": good, "cut": good[: len(good) * case["cut"] // 1000], "empty": b"", "garbage": bytes((case["cut"] * i) % 251 for i in range(300)), "none_pickled": pickle.dumps(None), "list": pickle.dumps([1, 2]), "dict": pickle.dumps({"a": case["cut"]}), "text": b"not a pickle\n", "number": pickle.dumps(5), "no_class": b"\x80\x03cno.such.module\nThing\n."}
    if state in content:
        data = content[state]
    else:
        d = pickle.loads(good)
        for scope in ("match", "group", "output", "formatters"):
            d[scope] = {}  # other functions than now
        if state == "other_version":
            d["__version__"] = case["version"]
        elif state == "other_python":
            d["python_major_version"] = 2
        else:
            d.pop("__version__", None)
        data = pickle.dumps(d)
    with open(path, "wb") as f:
        f.write(data)
    return folder


@sub(P, "content", gen_cache, 250, 5000, "the cache holds something")
def content(case):
    before = os.environ["TTPCACHEFOLDER"]
    try:
        with api.Scratch() as folder:
            os.environ["TTPCACHEFOLDER"] = os.path.join(folder, "no", "cache")
            want = [run(c) for c in case["seq"]]
            where = os.path.join(folder, "c")
            os.mkdir(where)
            for state in [case["state"]] + case["again"]:
                os.environ["TTPCACHEFOLDER"] = put(state, where, case)
                for c, w in zip(case["seq"], want):
                    eq(run(c), w, "results with a cache (%s)" % state)
    finally:
        os.environ["TTPCACHEFOLDER"] = before
    return [case["state"]] if case["state"] not in ("none", "missing_folder") else None


CHILD = """
import sys, os
sys.path[:0] = [%r, %r]
sys.path.append(%r)
import time
from checks import p28
while time.time() < float(sys.argv[1]): pass
import json
for c in json.loads(sys.argv[2]):
    print("RESULT", json.dumps(p28.run(c)))
"""


@gen.cases
def gen_start(d):
    return {"state": d.choice(["none", "valid", "cut", "dict", "other_version"]), "cut": d.int(0, 999), "version": "1", "seqs": [[choice(d) for _ in range(d.int(1, 2))] for _ in range(d.int(2, 4))]}


@sub(P, "starts", gen_start, 16, 200, "always")
def starts(case):
    import json
    import time

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    before = os.environ["TTPCACHEFOLDER"]
    try:
        with api.Scratch() as folder:
            os.environ["TTPCACHEFOLDER"] = os.path.join(folder, "no", "cache")
            want = [[json.loads(json.dumps(run(c))) for c in s] for s in case["seqs"]]
            os.environ["TTPCACHEFOLDER"] = where = put(case["state"], folder, case)
            at = time.time() + 0.7
            procs = [subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-c", CHILD % (REPO, here, TOOLS), str(at), json.dumps(s)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, TTPCACHEFOLDER=where)) for s in case["seqs"]]
            for p, w in zip(procs, want):
                out, err = p.communicate(timeout=200)
                ensure(p.returncode == 0, "process that started next to others", stderr=err.decode()[-1500:])
                eq([json.loads(x[7:]) for x in out.decode().splitlines() if x.startswith("RESULT ")], w, "results of a process that started next to others")
            eq([json.loads(json.dumps(run(c))) for c in case["seqs"][0]], want[0], "results with the cache left behind")
    finally:
        os.environ["TTPCACHEFOLDER"] = before
    return [case["state"]]
