"""P16: macros and custom functions - TTP runs the functions that are in scope, gives them the data and the arguments
written in the template, and treats what they return as documented."""
import copy
import json

from vlib import api, funcs, gen
from vlib.core import Discard, ensure, eq, sub

P = "P16"

# ------------------------------------------------------------------ macros

# bodies of macro for text; TAG is replaced with the id of definition, so that results tell which definition ran
TEXT = [
    "return str(data) + 'TAG'",
    "return None",
    "return True",
    "return False",
    "return 'a' in str(data)",
    "return False if 'b' in str(data) else None",
    "return ''",
    "return 0",
    "return [data, 'TAG']",
    "return {'TAG': data}",
    "return [str(data), {'f_TAG': data}]",
    "return str(data), {'f_TAG': data}",
    "return 'TAG', {}",
    "return 'TAG', ['x']",
    "return 'TAG', 1, {'f': 2}",
    "return helper(data)",
    "import re\n    return re.sub('[a-c]', 'TAG', str(data))",
    "return data if len(str(data)) > 9 else NAME(str(data) + 'xTAG')",
    "return CONST + str(data)",
    "pass",
    "return _ttp_['vars'].get('tvar', 'none') + str(data)",
    "if 'a' in str(data):\n        return str(data) + 'TAG', {'both': 'TAG', 'has_a': True}\n    return 'no a'",
]
RECORD = [
    "data['TAG'] = len(data)",
    "data['TAG'] = 1\n    return data",
    "return None",
    "return True",
    "return False",
    "return data.get('x') != 'a'",
    "return dict(data, TAG=sorted(data))",
    "return {'TAG': dict(data)}",
    "data.clear()\n    data['only'] = 'TAG'\n    return True",
    "return {k: v for k, v in data.items() if k != 'y'} or None",
    "return {k: v for k, v in data.items() if k == 'y'}",
]
INPUT = [
    "return data.replace('kone a', 'kone TAG')",
    "return data + '\\nkone TAG\\n\\n'",
    "return None",
    "return True",
    "return False",
    "return 'a' in data",
    "return '\\n' + '\\n'.join(data.splitlines()[::-1]) + '\\n\\n'",
    "return '\\nkone TAG\\n\\n'",
    "return ''",
]
OUTPUT = [
    "if isinstance(data, list):\n        data.append('TAG')",
    "return [data, 'TAG']",
    "return {'TAG': data}",
    "return None",
    "return False",
    "return 'TAG'",
    "return []",
    "return [data]",
]
HEAD = "CONST = 'cTAG'\ndef helper(x):\n    return CONST + 'h' + str(x)\n"
NAMES = ["m_one", "m_two", "m_three", "helper2"]


def source(name, body, tag):
    return (HEAD + "def NAME(data):\n    BODY\n").replace("BODY", body).replace("NAME", name).replace("TAG", tag)


@gen.cases
def macros(d):
    bodies = {"text": TEXT, "record": RECORD, "input": INPUT, "output": OUTPUT}
    kind = d.choice(["text", "text", "text", "record", "input", "output"])
    pool = bodies[kind]
    n = d.choice([1, 1, 2, 3])
    custom = [[nm, d.choice(pool)] for nm in NAMES if d.bool(20)]
    templates = []
    for i in range(n):
        tags = [[[d.choice(NAMES), d.choice(pool)] for _ in range(d.choice([1, 1, 2]))] for _ in range(d.choice([0, 1, 1, 2]))]
        calls = [[d.choice(NAMES + ["m_missing"]) if d.bool(15) else d.choice(NAMES[:3]) for _ in range(d.choice([1, 1, 2]))] for _ in range(d.choice([1, 1, 2]))]
        templates.append({"tags": tags, "calls": calls, "upper": d.bool(30), "place": d.choice(["a", "b"]), "style": d.int(0, 1), "inputs": [
            [[d.text("abcd", 1, 4), d.text("abcd", 1, 4) if d.bool(70) else None] for _ in range(d.int(1, 4))] for _ in range(d.choice([1, 1, 2]))]})
    return {"kind": kind, "custom": custom, "templates": templates, "child_tags": d.bool(50), "ttp": "vars"}


def load(src, tvar):
    ns = {"_ttp_": {"vars": {"tvar": tvar} if tvar else {}}}
    exec(src, ns)
    return ns


def match_result(data, res):
    """(data, new fields or None) or None when rejected, as documented."""
    if res is True or res is None:
        return data, {}
    if res is False:
        return None
    if isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], dict):
        return res[0], res[1]
    return res, {}


def body_of(kind, t):
    """Template text of one template."""
    flat = [c for cs in t["calls"] for c in cs]
    g = {"text": "", "record": "", "input": "", "output": ""}
    if kind == "text":
        chain = " | macro('%s')" * len(flat) % tuple(flat)
        if t["upper"]:
            chain = chain.replace(" | macro", " | upper | macro", 1)
    else:
        chain = ""
        g[kind] = " macro=\"%s\"" % ", ".join(flat) if t["style"] else " functions=\"%s\"" % " | ".join("macro(%s)" % ", ".join("'%s'" % c for c in cs) for cs in t["calls"])
        if kind == "output":
            g[kind] = " macro=\"'%s'\"" % flat[0] if len(flat) == 1 and t["style"] else " functions=\"%s\"" % " | ".join("macro('%s')" % c for c in flat)
    inputs = "".join("<input name=\"i%d\" load=\"text\"%s>\n%s\n</input>\n" % (k, g["input"], text) for k, text in enumerate(datas(t)))
    return "<vars>tvar = 'V'</vars>\n%s%s<group name=\"g*\"%s>\nkone {{ x%s }}\n ktwo {{ y%s }}\n</group>\n%s" % (
        inputs, "".join("<macro>\n%s\n</macro>\n" % gen.xml(s) for s in t["src"]), g["record"], chain if t["place"] == "a" else "", chain if t["place"] == "b" else "",
        "<output%s/>\n" % g["output"] if g["output"] else "")


def datas(t):
    return ["\n".join("kone %s%s" % (x, "" if y is None else "\n ktwo %s" % y) for x, y in recs) for recs in t["inputs"]]


def records(text):
    out = []
    for line in text.splitlines():
        w = line.split()
        if len(w) == 2 and line == "kone " + w[1]:
            out.append([w[1], None])
        elif len(w) == 2 and line == " ktwo " + w[1] and out:
            if out[-1][1] is None:
                out[-1][1] = w[1]
    return out


def expected(kind, t, scope):
    flat = [c for cs in t["calls"] for c in cs]
    results, ran = [], 0
    texts = datas(t)
    for text in texts:
        if kind == "input":
            data = "\n\n" + text + "\n\n\n"
            for c in flat:
                if c in scope:
                    ran += 1
                    res = scope[c](data)
                    if res is False:
                        break
                    if res is not True and res is not None:
                        data = res
            recs = records(data)
        else:
            recs = records(text)
        items = []
        for x, y in recs:
            rec, ok = {}, True
            for key, v in (("x", x), ("y", y)):
                if v is None:
                    continue
                extra = {}
                if kind == "text" and t["place"] == ("a" if key == "x" else "b"):
                    if t["upper"]:
                        v = v.upper()
                    for c in flat:
                        if c not in scope:
                            continue
                        ran += 1
                        r = match_result(v, scope[c](v))
                        if r is None:
                            ok = False
                            break
                        v = r[0]
                        extra.update(r[1])
                    if not ok and key == "y":  # only this line is rejected
                        ok = True
                        continue
                    if not ok:
                        break
                rec[key] = v
                for k, val in extra.items():
                    rec[k] = val
            if ok and kind == "record":
                for c in flat:
                    if c not in scope:
                        continue
                    ran += 1
                    res = scope[c](rec)
                    if res is False:
                        ok = False
                        break
                    if res is not True and res is not None:
                        rec = res
            if ok:
                items.append(rec)
        # empty records leave nothing but the list they would be in
        results.append({"g": [x for x in items if x != {}]} if items else {})
    if kind == "output":
        for c in flat:
            if c in scope:
                ran += 1
                res = scope[c](results)
                if res is not None:
                    results = res
    return results, ran


@sub(P, "macro", macros, 6000, 200000, "a macro defined for the template ran")
def check_macros(case):
    kind = case["kind"]
    p = api.new()
    base = {}
    for i, (name, body) in enumerate(case["custom"]):
        src = source(name, body, "c%d" % i)
        p.add_function(_real(src, p)[name], "macro", name)
        base[name] = load(src, "V")[name]
    want, ran, texts = [], 0, []
    for i, t in enumerate(case["templates"]):
        scope = dict(base)
        t = dict(t, src=[])
        for j, tag in enumerate(t["tags"]):
            src = "".join(source(nm, b, "t%d%d%d" % (i, j, k)) for k, (nm, b) in enumerate(tag))
            t["src"].append(src)
            ns = load(src, "V")
            for nm in ["helper"] + [x[0] for x in tag]:
                scope[nm] = ns[nm]
        texts.append(body_of(kind, t))
        w, r = expected(kind, t, scope)
        ran += r
        want.append(w)
    if case["child_tags"]:
        p.add_template("<template>\n%s\n</template>" % "\n".join("<template name=\"t%d\">\n%s</template>" % x for x in enumerate(texts)))
    else:
        for i, x in enumerate(texts):
            p.add_template(x, template_name="t%d" % i)
    p.parse(one=True)
    got = p.result()
    eq(got, want, templates=texts, custom=case["custom"])
    return [kind] if ran else None


def _real(src, p):
    ns = {"_ttp_": p._ttp_}
    exec(src, ns)
    return ns


# ------------------------------------------------------------------ errors


@gen.cases
def errors(d):
    return {"exc": d.choice(["KeyError", "ValueError", "IndexError", "AttributeError", "TypeError", "ZeroDivisionError", "Custom"]),
            "scope": d.choice(["match", "match macro", "group", "group macro", "input", "input macro", "output", "output macro", "formatters", "returners"]),
            "name": d.choice(["my_fun", "upper", "strip", "title", "my_fun"]), "trigger": d.text("abc", 1, 2), "values": [d.text("abc", 1, 2) for _ in range(d.int(1, 5))]}


@sub(P, "errors", errors, 1500, 40000, "the function raised an error")
def check_errors(case):
    scope, name = case["scope"], case["name"]
    mac = "macro" in scope
    trig = case["trigger"]
    needle = "kone %s\n" % trig if scope.startswith("input") else trig if scope.startswith("match") else "'%s'" % trig
    src = "class Custom(Exception):\n    pass\ndef %s(data, *args, **kwargs):\n    if %r in str(data):\n        raise %s('boom')\n    return %s\n" % (
        name, needle, case["exc"], "None" if mac else "(data, None)" if scope in ("match", "group", "input") else "data")
    p = api.new()
    use = {k: "" for k in ("match", "group", "input", "output")}
    first = scope.split()[0]
    if scope == "formatters":
        use["output"] = ' format="%s"' % name
    elif scope == "returners":
        use["output"] = ' returner="%s"' % name
    elif first == "match":
        use["match"] = " | macro('%s')" % name if mac else " | %s" % name
    else:
        use[first] = ' macro="\'%s\'"' % name if mac else ' functions="%s"' % name
    if not mac:
        p.add_function(_real(src, p)[name], scope, name)
    out = "<output%s/>" % use["output"] if use["output"] else ""
    t = "<macro>\n%s\n</macro>\n<input load='text'%s>\n%s\n</input>\n<group name='g*'%s>\nkone {{ x%s }}\n</group>\n%s" % (
        gen.xml(src) if mac else "pass_ = 1", use["input"], "\n".join("kone %s" % v for v in case["values"]), use["group"], use["match"], out)
    p.add_template(t)
    hit = case["trigger"] in case["values"] if first != "match" else any(case["trigger"] in v for v in case["values"])
    try:
        p.parse(one=True)
    except Exception as e:
        ensure(hit, "error without a reason", error=repr(e), template=t)
        ensure(type(e).__name__ == case["exc"] and "boom" in str(e), "another error is raised", error=repr(e), want=case["exc"], template=t)
        return [scope]
    ensure(not hit, "error of function is lost", result=p.result(), template=t, src=src)
    eq(p.result(), [[{"g": [{"x": v} for v in case["values"]]}]], template=t)
    return None


# ------------------------------------------------------------------ custom functions

BUILTIN = {
    "match": ["to_int", "split", "lookup", "append", "replaceall", "print", "prepend", "upper", "strip", "is_ip", "truncate", "resub"],
    "group": ["contains", "equal", "to_ip", "sformat", "void", "delete", "itemize", "containsall"],
    "input": ["test", "test"],
    "output": ["traverse", "is_equal", "dict_to_list"],
    "variable": ["gethostname", "getfilename", "get_time"],
    "formatters": ["json", "yaml", "pprint"],
    "returners": ["terminal", "file", "syslog"],
}


def plain(d):
    return d.choice([1, 0, -5, True, False, None, "w1", "two words", ["a", 1], {"k": [1]}, "", "x,y", "a=b", 1.5])


def make_call(d):
    return {"args": [plain(d) for _ in range(d.choice([0, 1, 1, 2]))], "kwargs": {k: plain(d) for k in d.sample(["k_one", "k_two", "sep"], d.choice([0, 0, 1, 2]))}}


@gen.cases
def custom(d):
    scope = d.choice(["match", "match", "group", "group", "input", "output", "variable", "formatters", "returners"])
    names, calls = [], []
    for i in range(d.choice([1, 1, 2, 3])):
        nm = d.choice(["my_fun", "My_Fun2", "zz"]) if d.bool(50) else d.choice(BUILTIN[scope])
        if nm in names:
            continue
        names.append(nm)
    behave = {nm: d.choice(["append", "none", "true", "false_a", "false", "field", "swap"]) for nm in names}
    for _ in range(d.choice([1, 2, 2, 3])):
        c = make_call(d)
        c["name"] = d.choice(names)
        c["text"] = funcs.call(d, c["name"], c["args"], c["kwargs"])
        calls.append(c)
    return {"scope": scope, "names": names, "default_name": d.bool(30), "behave": behave, "calls": calls, "add_ttp": d.bool(20), "values": [d.text("abcd", 1, 4) for _ in range(d.int(1, 4))],
            "load_builtin": d.bool(50), "style": d.int(0, 2), "inputs": d.choice([1, 1, 2])}


def behaviour(scope, name, how, log):
    def text(data, args, kwargs):
        if how == "append":
            return data + name[-2:], None
        if how == "none":
            return data, None
        if how == "true":
            return data + "T", True
        if how == "false":
            return data, False
        if how == "false_a":
            return data, "a" not in data
        if how == "field":
            return data, {"new_field": {"f_" + name: data}}
        return data[::-1], None

    def group(data, args, kwargs):
        if how == "append":
            data["x"] = data.get("x", "") + name[-2:]
            return data, None
        if how == "none":
            return data, None
        if how == "true":
            return dict(data, t=1), True
        if how == "false":
            return data, False
        if how == "false_a":
            return data, "a" not in data.get("x", "")
        if how == "field":
            data["f_" + name] = [list(args), kwargs]
            return data, None
        return {"new": data}, None if name == "zz" else True

    def inp(data, args, kwargs):
        if how in ("append", "true"):
            return data.replace("kone ", "kone " + name[-1]), None if how == "append" else True
        if how == "false":
            return data.replace("kone ", "kone F"), False
        if how == "false_a":
            return data, "a" not in data
        return data, None

    def out(data, args, kwargs):
        if how in ("append", "true", "field"):
            return [data, name]
        if how == "swap":
            return {"was": data}
        return data

    fn = {"match": text, "group": group, "input": inp, "output": out, "formatters": out}.get(scope)

    def run(data, *args, **kwargs):
        log.append([name, copy.deepcopy(data), list(args), copy.deepcopy(kwargs)])
        if scope == "variable":
            return {"append": "v " + str(args[0]), "none": None, "false": False}.get(how, ["v", name])
        if scope == "returners":
            return None
        return fn(data, args, kwargs)

    run.__name__ = name
    return run


@sub(P, "custom functions", custom, 6000, 200000, "custom functions ran")
def check_custom(case):
    scope, names = case["scope"], case["names"]
    log, wlog = [], []
    p = api.new()
    real = {nm: behaviour(scope, nm, case["behave"][nm], log) for nm in names}
    ref = {nm: behaviour(scope, nm, case["behave"][nm], wlog) for nm in names}
    for nm in names:
        if case["default_name"]:
            p.add_function(real[nm], scope, add_ttp=False)
        else:
            p.add_function(real[nm], scope=scope, name=nm, add_ttp=False)
    calls = case["calls"]
    # a few built in functions of the same modules make TTP load the modules
    pre = " | notequal('nothing') | contains_re('.') | notstartswith_re('q')" if case["load_builtin"] else ""
    chain = " | ".join(c["text"] for c in calls)
    use = {k: "" for k in ("match", "group", "input", "output")}
    tvars = ""
    if scope == "match":
        use["match"] = " | " + chain
    elif scope in ("group", "input", "output"):
        calls = [c for c in calls]
        use[scope] = " functions=%s" % quote(chain)
        if scope == "group" and case["style"] == 1:
            use[scope] = " chain='the_chain'"
            tvars = "<vars>\nthe_chain = %r\n</vars>\n" % [c["text"] for c in calls]
    elif scope == "variable":
        tvars = "<vars name='vars'>\n%s\n</vars>\n" % "\n".join("v%d = '%s'" % (i, nm) for i, nm in enumerate(names))
        if not names:
            raise Discard
    elif scope == "formatters":
        use["output"] = ' format="%s" opt="5"' % names[0]
    else:
        use["output"] = ' returner="%s" opt="5"' % ", ".join(names)
    out = "<output%s/>\n" % use["output"] if use["output"] else ""
    t = "%s<group name='g*'%s>\nkone {{ x%s%s }}\n</group>\n%s" % (tvars, use["group"], pre, use["match"], out)
    datas_ = ["\n".join(["#%d" % i] + ["kone %s" % v for v in case["values"]]) for i in range(case["inputs"])]
    if use["input"]:
        t = "".join("<input name='i%d' load='text'%s>%s</input>\n" % (i, use["input"], x) for i, x in enumerate(datas_)) + t
    p.add_template(t)
    if not use["input"]:
        for x in datas_:
            p.add_input(x)
    p.parse(one=True)
    got = p.result()[0]
    # reference
    want = []
    for text in datas_:
        text = "\n" + text + "\n\n"
        saved = {}
        if scope == "variable":
            for i, nm in enumerate(names):
                r = ref[nm](text, "text_data")
                if r:
                    saved["v%d" % i] = r
        if scope == "input":
            for c in calls:
                text, flag = ref[c["name"]](text, *c["args"], **c["kwargs"])
                if flag is False:
                    break
        items = []
        vals = [ln.split()[1] for ln in text.splitlines() if ln.startswith("kone ")]
        recs = []
        for v in vals:
            rec, ok = {}, True
            if scope == "match":
                for c in calls:
                    v, flag = ref[c["name"]](v, *c["args"], **c["kwargs"])
                    if flag is False:
                        ok = False
                        break
                    if isinstance(flag, dict):
                        rec.update(flag["new_field"])
            if ok:
                recs.append(dict(rec, x=v))
        for rec in recs:
            ok = True
            if scope == "group":
                for c in calls:
                    rec, flag = ref[c["name"]](rec, *c["args"], **c["kwargs"])
                    if flag is False:
                        ok = False
                        break
            if ok:
                items.append(rec)
        res = {"g": items} if items else {}
        if scope == "variable" and recs:
            res["vars"] = saved
        want.append(res)
    if scope == "output":
        for c in calls:
            want = ref[c["name"]](want, *c["args"], **c["kwargs"])
    elif scope == "formatters":
        want = ref[names[0]](want)
    elif scope == "returners":
        for nm in names:
            ref[nm](want)
    if scope in ("formatters", "returners"):
        for entry in log:
            ensure(entry[3].get("opt") == "5", "attributes of output are passed to the function", got=entry)
            entry[3] = {}
    eq(got, want, template=t, data=datas_)
    if scope == "variable":
        # getters may run in any order
        key = lambda e: [e[0], e[2]]  # noqa: E731
        log, wlog = sorted(log, key=str), sorted(wlog, key=str)
    eq(log, wlog, "calls of functions", template=t, data=datas_)
    return [scope] if log else None


def quote(text):
    return '"%s"' % gen.xml_attr(text)


# ------------------------------------------------------------------ functions that use TTP's own dictionary

OWN = '''
def own_match(data, *args, **kwargs):
    return data + "-" + _ttp_["vars"]["site"], None

def own_group(data, *args, **kwargs):
    data["site"] = _ttp_["vars"]["site"]
    return _ttp_["group"]["to_int"](data)

def own_input(data, *args, **kwargs):
    return data.replace("kone ", "kone " + _ttp_["vars"]["site"]), None

def own_output(data, *args, **kwargs):
    return {"site": _ttp_["vars"]["site"], "data": _ttp_["output"]["dict_to_list"](data, key_name="k")}

def own_variable(data, name):
    return _ttp_["vars"]["site"] + " var"

def own_formatters(data, **kwargs):
    return _ttp_["vars"]["site"] + _ttp_["formatters"]["json"](data)

def own_macro(data):
    return data + "+" + _ttp_["vars"]["site"]
'''


@gen.cases
def own(d):
    rounds = []
    for _ in range(d.int(1, 3)):
        rounds.append({"scope": d.choice(["match", "group", "input", "output", "variable", "formatters", "macro"]), "site": d.choice(["s1", "s2", "north", "x"]),
                       "values": [d.choice(["1", "22", "a", "b c"]) for _ in range(d.int(1, 3))], "fresh": d.bool(25), "name": d.choice([None, "fun", "other"])})
    return {"rounds": rounds, "again": d.bool(50)}


@sub(P, "own dictionary", own, 1500, 40000, "two parsers or more used functions of the same module")
def check_own(case):
    ns = {}
    exec(OWN, ns)
    shared = 0
    for r in case["rounds"]:
        if r["fresh"]:
            ns = {}
            exec(OWN, ns)
            shared = 0
        shared += 1
        scope, site = r["scope"], r["site"]
        fun = ns["own_" + scope]
        name = r["name"] or "own_" + scope
        p = api.new(vars={"site": site})
        p.add_function(fun, scope=scope, name=r["name"], add_ttp=True)
        use = {"match": " | " + name, "macro": " | macro('%s')" % name, "group": ' functions="%s"' % name, "input": ' functions="%s"' % name, "output": "<output functions='%s'/>" % name,
               "formatters": "<output format='%s'/>" % name, "variable": "<vars name='v'>\ngot = '%s'\n</vars>" % name}[scope]
        data = "\n".join("kone %s" % v for v in r["values"])
        t = "%s<group name='g*'%s>\nkone {{ x | ORPHRASE%s }}\n</group>\n%s" % (
            "<input load='text'%s>\n%s\n</input>\n" % (use if scope == "input" else "", data), use if scope == "group" else "", use if scope in ("match", "macro") else "",
            use if scope in ("output", "formatters", "variable") else "")
        p.add_template(t)
        recs = [{"x": v} for v in r["values"]]
        for rec in recs:
            if scope == "match":
                rec["x"] += "-" + site
            elif scope == "macro":
                rec["x"] += "+" + site
            elif scope == "input":
                rec["x"] = site + rec["x"]
            elif scope == "group":
                rec["site"] = site
                rec["x"] = int(rec["x"]) if rec["x"].isdigit() else rec["x"]
        want = [{"g": recs}]
        if scope == "variable":
            want[0]["v"] = {"got": site + " var"}
        elif scope == "output":
            want = {"site": site, "data": want}
        for _ in range(2 if case["again"] else 1):
            p.parse(one=True)
            got = p.result()[0]
            if scope == "formatters":
                ensure(isinstance(got, str) and got.startswith(site), "formatter knows variables of its parser", got=got, template=t)
                got = json.loads(got[len(site):])
            eq(got, want, template=t, site=site)
            p.clear_result()
    return [r["scope"] for r in case["rounds"]] if shared > 1 else None
