"""P26: output functions that judge results tell the truth about them."""
import copy
import json
import os
from xml.sax.saxutils import escape, quoteattr

from vlib import api, gen
from vlib.core import Discard, ensure, eq, sub

P = "P26"
NAMES = ["interface", "ip", "mask", "vlan", "descr", "vrf"]


def record(d, lo=0):
    return {n: d.choice(["a", "b", "10.0.0.1", "1", gen.word(d)]) for n in d.sample(NAMES, d.int(lo, 4))}


def results_of(d):
    """Results of an input."""
    k = d.int(0, 3)
    if k == 0:
        return [record(d, 1) for _ in range(d.int(1, 3))]
    if k == 1:
        return {"g": [record(d, 1) for _ in range(d.int(1, 3))]}
    if k == 2:
        return {n: record(d, 1) for n in d.sample(["x", "y", "z"], d.int(1, 2))}
    return record(d, 1)


def mutate(d, x):
    """Another structure, nearly the same."""
    x = copy.deepcopy(x)
    spots = []

    def walk(y):
        if isinstance(y, (list, dict)):
            spots.append(y)
            for v in y if isinstance(y, list) else y.values():
                walk(v)

    walk(x)
    s = d.choice(spots)
    k = d.int(0, 4)
    if isinstance(s, list):
        if k == 0:
            s.append(record(d, 1))
        elif k == 1 and len(s) > 1:
            s.pop(d.int(0, len(s) - 1))
        elif k == 2:
            s.reverse()
        elif s:
            s[0] = d.choice([{}, "a", [s[0]], None])
    else:
        if k == 0:
            s[d.choice(["extra", "ip"])] = d.choice(["a", "", [], None])
        elif s:
            key = d.choice(sorted(s))
            if k == 1:
                s.pop(key)
            elif k == 2:
                s[key] = d.choice(["b", 1, "1", None, ["a"]])
            else:
                s[key] = [s[key]]
    return x


# ------------------------------------------------------------------ is_equal


@gen.cases
def gen_equal(d):
    data = [results_of(d) for _ in range(d.int(1, 3))]
    where = d.choice(["list", "list", "traverse"])
    if where == "traverse":
        data = [{"top": x} for x in data]
        expect = [x["top"] for x in data]
    else:
        expect = data
    other = expect
    for _ in range(d.choice([0, 0, 1, 1, 2])):
        other = mutate(d, other)
    return {"data": data, "where": where, "expect": other, "load": d.choice(["python", "json", "yaml"]), "name": d.choice([None, "test 1", "x"]), "description": d.choice([None, "some & text", "d"]), "as": d.choice(["functions", "attr"])}


@sub(P, "is_equal", gen_equal, 2500, 40000, "always")
def is_equal(case):
    data = case["data"]
    at = [x["top"] for x in data] if case["where"] == "traverse" else data
    if case["load"] == "python":
        text = repr(case["expect"])
    elif case["load"] == "json":
        text = json.dumps(case["expect"], indent=case["as"] == "attr" and 2 or None)
    else:
        import yaml

        text = yaml.safe_dump(case["expect"])
    attrs = {"load": case["load"]}
    if case["name"]:
        attrs["name"] = case["name"]
    if case["description"]:
        attrs["description"] = case["description"]
    if case["where"] == "traverse":
        attrs["functions"] = "traverse('top') | is_equal"
    elif case["as"] == "attr":
        attrs["is_equal"] = ""
    else:
        attrs["functions"] = "is_equal"
    p = api.new()
    p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
    p.add_template('<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n<output%s>\n%s\n</output>' % ("".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs.items()), escape(text)))
    p.add_input("zz 1\n")
    p.parse()
    eq(p.result(), [{"output_name": case["name"], "output_description": case["description"] or "None", "is_equal": at == case["expect"]}], "what is_equal returned", data=at, expected=case["expect"])
    return ["equal" if at == case["expect"] else "different"]


# ------------------------------------------------------------------ deepdiff


@gen.cases
def gen_diff(d):
    inputs = []
    for n in d.sample(["before", "after", "other", "none"], d.int(2, 4)):
        inputs.append({"name": n, "texts": [[[d.choice(["a", "b", "c"]), d.choice(["1", "2"])] for _ in range(d.int(0, 3))] for _ in range(d.choice([1, 1, 1, 2]) if n != "none" else 0)]})
    return {"inputs": inputs, "before": d.choice(["input", "input", "var", "template"]), "after": d.choice([None, "after", "after"]), "mode": d.choice([None, "bulk", "iterate"]),
            "add": d.choice([None, "difference"]), "kwargs": d.choice([{}, {"ignore_order": True}, {"verbose_level": 2}, {"ignore_order": False, "verbose_level": 0}]),
            "var": [{"g": [{"x": d.choice("abc"), "y": d.choice("12")} for _ in range(d.int(0, 2))]} for _ in range(d.int(1, 3))], "group": d.choice(["g*", "g", "g.{{ x }}"]), "positional": d.bool()}


@sub(P, "deepdiff", gen_diff, 800, 15000, "there is a difference")
def deepdiff(case):
    from deepdiff import DeepDiff

    inputs = case["inputs"]
    names = [i["name"] for i in inputs]
    before, after = case["before"], case["after"]
    if after and after not in names or before == "input" and "before" not in names:
        raise Discard("no such input")
    group = '<group name="%s">\nrow {{ x }} {{ y }}\n</group>' % case["group"]

    def text(rows):
        return "\n".join("row %s %s" % tuple(r) for r in rows) or "nothing"

    tags = []
    for i in inputs:
        seen = []
        if not i["texts"]:  # an input without data
            tags.append('<input name="%s"/>' % i["name"])
        for t in i["texts"]:
            if t in seen:  # the same text again is loaded once
                continue
            seen.append(t)
            tags.append('<input name="%s" load="text">\n%s\n</input>' % (i["name"], text(t)))
        i["texts"] = seen
    plain = api.new()
    plain.add_template("<template>\n%s\n%s\n</template>" % ("\n".join(tags), group))
    plain.parse()
    data = plain.result()[0]
    spans, n = {}, 0
    for i in inputs:
        spans[i["name"]] = data[n: n + len(i["texts"])]
        n += len(i["texts"])
    args = {}
    if before == "input":
        args["input_before"], old = "before", spans["before"]
    elif before == "var":
        args["var_before"], old = "expected", case["var"]
    else:
        args["template_before"], old = "old", data[:1]
    new = spans[after] if after else data
    if after:
        args["input_after"] = after
    for k in ("mode", "add"):
        if case[k]:
            args["add_field" if k == "add" else k] = case[k]
    args.update(case["kwargs"])
    if case["positional"] and before == "input" and after:
        attr = ", ".join(["before", after] + ["%s=%r" % kv for kv in args.items() if kv[0] not in ("input_before", "input_after")])
    else:
        attr = ", ".join("%s=%r" % kv for kv in args.items())
    want_diff = [DeepDiff(old[0], x, **case["kwargs"]) for x in new] if case["mode"] == "iterate" else DeepDiff(old, new, **case["kwargs"])
    first = ""
    if before == "template":
        first = '<template name="old">\n%s\n%s\n</template>\n' % (next(t for t in tags if "load" in t), group)
    p = api.new()
    p.add_template("%s<template name='new'>\n%s\n<vars>\nexpected = %s\n</vars>\n%s\n<output deepdiff=%s/>\n</template>" % (first, "\n".join(tags), case["var"], group, quoteattr(attr)))
    p.parse()
    got = p.result(structure="dictionary")["new"]
    if case["add"]:
        ensure(isinstance(got, list) and len(got) == len(data) + 1, "results with the difference added", got=got)
        eq(got[:-1], data, "results next to the difference")
        ensure(list(got[-1]) == [case["add"]], "field with the difference", got=got[-1])
        got = got[-1][case["add"]]
    ensure(type(got) is type(want_diff) and got == want_diff, "differences", got=got, want=want_diff, old=old, new=new)
    if before == "template":
        eq(p.result(structure="dictionary")["old"], data[:1], "results of the other template")
    return [before] if any(want_diff) else None


# ------------------------------------------------------------------ validate


@gen.cases
def gen_validate(d):
    schema = {}
    for n in d.sample(NAMES, d.int(1, 4)):
        schema[n] = d.choice([{"type": "string"}, {"type": "string", "allowed": ["a", "b"]}, {"type": "string", "required": True}, {"type": "string", "regex": "[0-9.]+"}, {"type": "string", "maxlength": 3}, {"type": "integer"}, {"type": "string", "excludes": "vrf"}])
    shape = d.choice(["inputs", "inputs", "template", "nested"])
    inputs = [record(d) for _ in range(d.int(1, 4))]
    if shape == "nested":
        schema = {"peers": {"type": "list", "schema": {"type": "dict", "schema": schema}}}
        inputs = [{"peers": [r, record(d)]} for r in inputs]
    return {"schema": schema, "inputs": inputs, "dict": shape == "template", "info": d.choice([None, None, "plain", "ip {ip}", "v {tv} {vlan}", "{missing}", "{ip} {tv}"]), "errors": d.choice([None, "errors", "bad"]), "result": d.choice([None, "ok"]),
            "allow": d.choice([None, True, False]), "returner": d.choice([None, None, "file"]), "other": d.bool(20)}


@sub(P, "validate", gen_validate, 1200, 20000, "a record is valid and another is not, or there is one only")
def validate(case):
    from cerberus import Validator

    data = case["inputs"][0] if case["dict"] else case["inputs"]
    args = ["sch"]
    for k, name in (("info", "info"), ("errors", "errors"), ("result", "result")):
        if case[k]:
            args.append("%s=%r" % (name, case[k]))
    if case["allow"] is not None:
        args.append("allow_unknown=%r" % case["allow"])

    def one(x):
        v = Validator(case["schema"], allow_unknown=case["allow"] is not False)
        ret = {case["result"] or "valid": v.validate(x)}
        if case["info"]:
            try:
                ret["info"] = case["info"].format(**dict({"tv": "var"}, **x))
            except KeyError:
                ret["info"] = case["info"]
        if case["errors"]:
            ret[case["errors"]] = v.errors
        return ret

    want = one(data) if case["dict"] else [one(x) for x in data]
    with api.Scratch() as folder:
        p = api.new()
        p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
        extra = ' returner="file" url="%s/o/" filename="f.txt" format="json"' % folder if case["returner"] else ""
        before = "<output validate=\"sch2, allow_unknown=%s\" returner='file' url='%s/p/'  filename='p.txt'/>" % (case["allow"] is False, folder) if case["other"] else ""
        p.add_template("<vars>\ntv = 'var'\nsch = %r\nsch2 = {'ip': {'type': 'integer'}}\n</vars>\n<group name='g'>\nzz {{ zz }}\n</group>\n<output functions='inject'/>\n%s<output validate=%s%s/>" % (case["schema"], before, quoteattr(", ".join(args)), extra))
        p.add_input("zz 1\n")
        p.parse()
        got = p.result()
        if case["returner"]:
            eq(got, [data], "results that were validated for a file")
            with open(folder + "/o/f.txt") as f:
                eq(json.load(f), json.loads(json.dumps(want)), "validation results in the file")
        else:
            eq(got, [want], "validation results", data=data)
    verdicts = {w[case["result"] or "valid"] for w in ([want] if case["dict"] else want)}
    return sorted(str(v) for v in verdicts) if len(verdicts) == 2 or len(case["inputs"]) == 1 or case["dict"] else None


# ------------------------------------------------------------------ YANG

YTYPES = {"uint8": "uint8", "bool": "boolean", "enum": "enumeration { enum up; enum down; }", "ipv4": "string { pattern '[0-9]{1,3}(\\.[0-9]{1,3}){3}'; }", "short": "string { length '1..4'; }", "range": "int32 { range '10..20'; }"}


def fits(t, v):
    import re

    if t == "uint8":
        return type(v) is int and 0 <= v <= 255
    if t == "range":
        return type(v) is int and 10 <= v <= 20
    if t == "bool":
        return type(v) is bool
    if not isinstance(v, str):
        return False
    if t == "enum":
        return v in ("up", "down")
    if t == "ipv4":
        return bool(re.fullmatch(r"[0-9]{1,3}(\.[0-9]{1,3}){3}", v))
    return 1 <= len(v) <= 4


@gen.cases
def gen_yang(d):
    mods = []
    for n in d.sample(["mod-a", "mod-b", "mod-c"], d.int(1, 3)):
        leaves = [[k, d.choice(sorted(YTYPES)), d.bool(20)] for k in d.sample(["l1", "l2", "l3"], d.int(1, 3))]
        mods.append({"name": n, "leaves": leaves})
    good = {"uint8": [0, 7, 255], "bool": [True, False], "enum": ["up", "down"], "ipv4": ["10.0.0.1"], "short": ["a", "abcd"], "range": [10, 15, 20]}
    wrong = {"uint8": [-1, 256, "a"], "bool": [1, "x"], "enum": ["UP", "none"], "ipv4": ["10.0.0", "a"], "short": ["", "abcde"], "range": [9, 21]}
    runs = []
    for _ in range(d.int(1, 3)):
        m = d.int(0, len(mods) - 1)

        def item():
            out, ok = {}, d.bool(60)
            for k, t, must in mods[m]["leaves"]:
                if d.bool(80) or ok and must:
                    out[k] = d.choice(good[t] if ok or d.bool(60) else wrong[t])
            if not ok and d.bool(25):
                out["unknown"] = "x"
            return {"%s:%s" % (mods[m]["name"], d.choice(["top", "top", "top", "top", "nosuch"]) if not ok else "top"): out}

        runs.append({"mod": m, "items": [item() for _ in range(d.int(1, 3))], "dict": d.bool(30), "metadata": d.choice([None, True, False]), "xml": d.bool(30), "lib": d.choice(["dir", "dir", "file", "tag"])})
    return {"mods": mods, "runs": runs}


@sub(P, "yang", gen_yang, 150, 3000, "results of two modules, or both valid and not")
def yang(case):
    with api.Scratch() as folder:
        libs = []
        for m in case["mods"]:
            body = "".join("    leaf %s { type %s%s%s }\n" % (k, YTYPES[t], "" if "{" in YTYPES[t] else ";", " mandatory true;" if must else "") for k, t, must in m["leaves"])
            api.write("%s/%s/%s@2020-01-01.yang" % (folder, m["name"], m["name"]), "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\";\n  prefix p;\n  revision 2020-01-01;\n  container top {\n%s  }\n}\n" % (m["name"], m["name"], body))
            libs.append(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "", "module": [{"name": m["name"], "revision": "2020-01-01", "namespace": "urn:" + m["name"], "conformance-type": "implement"}]}}))
            api.write("%s/%s.lib" % (folder, m["name"]), libs[-1])
        verdicts, used = set(), set()
        for r in case["runs"]:
            m = case["mods"][r["mod"]]
            data = r["items"][0] if r["dict"] else r["items"]

            def valid(x):
                (top, leaves), = x.items()
                types = {k: t for k, t, _ in m["leaves"]}
                return top.endswith(":top") and all(k in types and fits(types[k], v) for k, v in leaves.items()) and all(k in leaves for k, _, must in m["leaves"] if must)

            args = "yang_mod_dir=%r" % ("%s/%s" % (folder, m["name"]))
            text = "/>"
            if r["lib"] == "file":
                args += ", yang_mod_lib=%r" % ("%s/%s.lib" % (folder, m["name"]))
            elif r["lib"] == "tag":
                text = ' load="text">%s</output>' % escape(libs[r["mod"]])
            if r["metadata"] is not None:
                args += ", metadata=%r" % r["metadata"]
            if r["xml"]:
                args += ", to_xml=True"
            p = api.new()
            p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
            p.add_template("<group name='g'>\nzz {{ zz }}\n</group>\n<output functions='inject'/>\n<output validate_yangson=%s%s" % (quoteattr(args), text))
            p.add_input("zz 1\n")
            p.parse()
            got = p.result()[0]
            ok = [valid(x) for x in r["items"]] if not r["dict"] else [valid(data)]
            verdicts.update(ok)
            used.add(r["mod"])

            def check_xml(texts, items):
                import xml.etree.ElementTree as ET

                ensure(len(texts) == len(items), "XML documents", got=texts)
                for t, x in zip(texts, items):
                    found = {e.tag.split("}")[1]: e.text for e in ET.fromstring(t).iter() if e.tag.split("}")[1][0] == "l" and len(e.tag.split("}")[1]) == 2}
                    (leaves,) = x.values()
                    want = {k: {True: "true", False: "false"}.get(v, str(v)) if isinstance(v, bool) else str(v) for k, v in leaves.items()}
                    eq(found, want, "values in XML", text=t)

            if r["metadata"] is False:
                if not all(ok):
                    eq(got, False, "invalid results without metadata")
                elif r["xml"]:
                    check_xml([got] if r["dict"] else got, [data] if r["dict"] else data)
                else:
                    eq(got, data, "valid results without metadata")
                continue
            ensure(isinstance(got, dict) and set(got) >= {"result", "exception", "valid", "comment"}, "validation results", got=got)
            eq(got["valid"], ok[0] if r["dict"] else dict(enumerate(ok)), "verdicts", data=data, exception=got["exception"], comment=got["comment"])
            if not r["xml"]:
                eq(got["result"], data, "results")
            elif not r["dict"] or ok[0]:
                check_xml([got["result"]] if r["dict"] else got["result"], [x for x, o in zip([data] if r["dict"] else data, ok) if o])
            if not r["dict"]:
                eq(sorted(got["exception"]), [i for i, o in enumerate(ok) if not o], "items with an error")
    return sorted(str(v) for v in verdicts) if len(used) > 1 or len(verdicts) > 1 else None
