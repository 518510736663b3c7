"""P25: outputs run in their order, on the results they are for, when their condition is met."""
import copy
import contextlib
import io
import json
import os
from xml.sax.saxutils import quoteattr

from vlib import api, gen
from vlib.core import Discard, ensure, eq, sub

P = "P25"
MACRO = """<macro>
def m_wrap(data):
    return {"wrapped": data}

def m_none(data):
    return None

def m_change(data):
    def walk(x):
        if isinstance(x, dict):
            for v in list(x.values()):
                walk(v)
            x["seen"] = "macro"
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(data)

def m_pair(data):
    return [data, "pair"]
</macro>"""


def walk(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            walk(v)
        x["seen"] = "macro"
    elif isinstance(x, list):
        for v in x:
            walk(v)
    return x


def trav(data, path, strict):
    if isinstance(data, list):
        return [trav(i, path, strict) for i in data]
    if isinstance(data, dict):
        for p in path.split("."):
            if not strict and p not in data:
                return {}
            data = data[p]
    return data


def flat(data, key):
    if isinstance(data, list):
        return [flat(i, key) for i in data]
    if isinstance(data, dict) and all(isinstance(v, dict) for v in data.values()):
        return [dict(v, **{}) | {key: k} for k, v in data.items()]
    if not isinstance(data, dict):
        raise Discard("dict_to_list of something else")
    return data


def custom(data, *args, **kwargs):
    return {"args": list(args), "kwargs": kwargs, "data": data}


FUNCS = {
    "m_wrap": lambda x: {"wrapped": x},
    "m_none": lambda x: x,
    "m_change": walk,
    "m_pair": lambda x: [x, "pair"],
}

# ------------------------------------------------------------------ generation


def gen_func(d):
    k = d.choice(["macro", "macro", "traverse", "dict_to_list", "custom"])
    if k == "macro":
        return ["macro", d.choice(sorted(FUNCS))]
    if k == "traverse":
        return ["traverse", d.choice(["a", "a.b", "g0", "wrapped", "missing"]), False]
    if k == "dict_to_list":
        return ["dict_to_list", d.choice(["key", "name", "x"]), d.choice([None, None, "a", "a.b", "g1"])]
    return ["custom", d.sample(["p", 1, True, "q r"], d.int(0, 2)), d.choice([None, "opt"])]


def gen_output(d, i, files):
    out = {"name": "o%d" % i if d.bool(60) else None, "funcs": [gen_func(d) for _ in range(d.choice([0, 0, 1, 1, 2, 3]))], "as": d.choice(["functions", "attr"]),
           "format": d.choice([None, None, "raw", "json", "json", "pprint"]), "returner": d.choice([None, None, "self", "file", "self, file", "file,self", "terminal", "terminal, self"]),
           "condition": None, "tag": d.choice(["output", "output", "out", "o"]), "file": "f%d.txt" % i}
    if len(out["funcs"]) > len({f[0] for f in out["funcs"]}):
        out["as"] = "functions"
    if d.bool(30):
        out["condition"] = d.choice([["flag", True], ["flag", False], ["mode", "full"], ["mode", "brief"], ["num", 5], ["num", 6], ["absent", True], ["absent", "full"], ["nothing", None]])
    return out


@gen.cases
def gen_pipeline(d):
    groups, words = [], d.shuffle(gen.KEYWORDS)
    for i in range(d.int(1, 4)):
        groups.append({"name": d.choice([None, "g%d", "g%d*", "a.b.g%d", "a.b", "a.{{ x }}"]), "word": words.pop(), "outputs": None})
        if groups[i]["name"] and "%d" in groups[i]["name"]:
            groups[i]["name"] = groups[i]["name"] % i
    outputs = [gen_output(d, i, None) for i in range(d.int(1, 5))]
    for g in groups:
        if d.bool(30):
            names = [o["name"] for o in outputs if o["name"]]
            g["outputs"] = d.sample(names, d.int(1, 3)) or None
            if g["outputs"] and d.bool(20):
                g["outputs"].insert(d.int(0, len(g["outputs"])), "missing")
    if any(g["outputs"] for g in groups):
        for i, g in enumerate(groups):
            g["name"] = g["name"] or "h%d" % i
    inputs = []
    for _ in range(d.int(1, 3)):
        inputs.append("\n".join("%s %s" % (d.choice(groups)["word"], d.choice(["v1", "v2", "v3"])) for _ in range(d.int(0, 6))) or "none of these")
    return {"groups": groups, "outputs": outputs, "inputs": inputs, "results": d.choice([None, "per_input", "per_template"]), "vars": d.choice([{}, {"flag": True}, {"flag": False, "mode": "full"}, {"flag": True, "mode": "brief", "num": 5}, {"num": 6, "nothing": None}, {"num": "5", "flag": "True"}, {"num": "6", "nothing": "None", "flag": "False"}]),
            "rounds": d.choice([1, 1, 2])}


def func_text(f):
    if f[0] == "macro":
        return "macro", repr(f[1])
    if f[0] == "traverse":
        return "traverse", "path=%r, strict=%r" % (f[1], f[2])
    if f[0] == "dict_to_list":
        return "dict_to_list", "key_name=%r" % f[1] + (", path=%r" % f[2] if f[2] else "")
    return "custom", ", ".join([repr(a) for a in f[1]] + (["opt=%r" % f[2]] if f[2] else []))


def output_text(o, folder):
    attrs = {}
    if o["name"]:
        attrs["name"] = o["name"]
    if o["funcs"]:
        if o["as"] == "attr":
            for f in o["funcs"]:
                n, a = func_text(f)
                attrs[n] = a
        else:
            attrs["functions"] = " | ".join("%s(%s)" % func_text(f) if func_text(f)[1] else func_text(f)[0] for f in o["funcs"])
    for k in ("format", "returner"):
        if o[k]:
            attrs[k] = o[k]
    if o["condition"]:
        attrs["condition"] = "%s, %s" % tuple(o["condition"])
    attrs["url"] = folder
    attrs["filename"] = o["file"]
    return "<%s%s/>" % (o["tag"], "".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs.items()))


def group_text(g, outputs=True):
    at = (' name="%s"' % g["name"] if g["name"] else "") + (' output="%s"' % ", ".join(g["outputs"]) if g["outputs"] and outputs else "")
    return "<group%s>\n%s {{ x }}\n%s {{ x }} {{ y }}\n</group>" % (at, g["word"], g["word"])


# ------------------------------------------------------------------ model


def as_text(x):
    return x if isinstance(x, str) else str(x)


def run_output(o, data, vs, log):
    """What an output makes of the data; log: what leaves the process."""
    if o["condition"]:
        name, value = o["condition"]
        if name not in vs or vs[name] != value or type(vs[name]) is not type(value):
            return data
    res = data
    for f in o["funcs"]:
        if f[0] == "macro":
            res = FUNCS[f[1]](res)
        elif f[0] == "traverse":
            res = trav(res, f[1], f[2])
        elif f[0] == "dict_to_list":
            res = flat(trav(res, f[2], False) if f[2] else res, f[1])
        else:
            res = custom(res, *f[1], **({"opt": f[2]} if f[2] else {}))
    if o["format"] == "json":
        res = json.dumps(res, sort_keys=True, indent=4, separators=(",", ": "))
    elif o["format"] == "pprint":
        from pprint import pformat

        res = pformat(res, indent=4)
    returners = [r.strip() for r in (o["returner"] or "self").split(",")]
    for r in returners:
        if r == "file":
            log["files"][o["file"]] = as_text(res)
        elif r == "terminal":
            log["terminal"] += (res if isinstance(res, str) else str(res).replace("\\n", "\n")) + "\n"
    return res if "self" in returners else data


def seen(g, text):
    return any(ln.split(" ")[0] == g["word"] for ln in text.split("\n"))


@sub(P, "pipeline", gen_pipeline, 6000, 100000, "an output changed or delivered something and there was something to parse")
def pipeline(case):
    groups, outputs = copy.deepcopy(case["groups"]), case["outputs"]
    order = ["g%d" % i for i in range(len(groups))]
    del order
    with api.Scratch() as folder:
        folder_out = folder + "/out/"

        def build(gs, outs, with_outputs):
            head = "<template%s>" % (' results="%s"' % case["results"] if case["results"] else "")
            body = [MACRO] + [group_text(g, with_outputs) for g in gs] + [output_text(o, folder_out) for o in outs]
            p = api.new(vars=copy.deepcopy(case["vars"]))
            p.add_function(custom, "output", "custom")
            p.add_template("\n".join([head] + body + ["</template>"]))
            for t in case["inputs"]:
                p.add_input(t + "\n")
            return p

        def plain(gs):
            if not gs:
                return None
            p = build(gs, [], False)
            p.parse()
            return p.result()[0]

        def plain_input(gs, text):
            """Results of one input."""
            p = api.new(vars=copy.deepcopy(case["vars"]))
            p.add_template("\n".join(group_text(g, False) for g in gs))
            p.add_input(text + "\n")
            p.parse()
            return p.result()[0][0]

        # texts of the same words are one input: loaded once
        texts = []
        for t in case["inputs"]:
            if t not in texts:
                texts.append(t)
        used = {n for g in groups for n in g["outputs"] or []}
        by_name = {o["name"]: o for o in outputs if o["name"]}
        top = [o for o in outputs if o["name"] not in used]
        log = {"files": {}, "terminal": ""}
        for g in groups:
            g["run"] = [by_name[n] for n in g["outputs"] or [] if n in by_name]
        common = [g for g in groups if not g["run"]]
        special = [g for g in groups if g["run"]]
        if special:
            base = []
            merged = case["results"] == "per_template"
            named = plain(common) if merged else None
            if merged and common and not named:
                named = {}
            for t in texts:
                if not merged:
                    named = plain_input(common, t) if common else {}
                for g in special:
                    mine = plain_input([g], t)
                    if not seen(g, t):
                        continue
                    for o in g["run"]:
                        mine = run_output(o, mine, case["vars"], log)
                    if not isinstance(named, list):
                        named = [named] if named else []
                    named.append(mine)
                if not merged:
                    base.append(named)
            if merged:
                base = named if named is not None else {}
        else:
            base = plain(common)
        for o in top:
            base = run_output(o, base, case["vars"], log)
        p = build(groups, outputs, True)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            p.parse()
            got = p.result()
            eq(got, [base], "results after outputs")
            for _ in range(case["rounds"] - 1):
                p.clear_result()
                p.parse()
                eq(p.result(), [base], "results after outputs of the second round")
                log["terminal"] *= 2
        files = {}
        if os.path.isdir(folder_out):
            for f in os.listdir(folder_out):
                with open(folder_out + f, encoding="utf-8", newline="") as fh:
                    files[f] = fh.read()
        eq(files, log["files"], "files written")
        eq(out.getvalue(), log["terminal"], "text printed")
    return ["group outputs"] if special else ["template outputs"] if any(seen(g, t) for g in groups for t in texts) else None


# ------------------------------------------------------------------ result(...) with attributes of an output


@gen.cases
def gen_result(d):
    templates = []
    for n in d.sample(["one", "two", "three"], d.int(1, 3)):
        templates.append({"name": n, "vars": d.choice([{}, {"flag": True}, {"flag": False, "mode": "full"}, {"flag": True, "mode": "brief", "num": 5}]), "rows": [gen.word(d) for _ in range(d.int(0, 3))], "group": d.choice(["g", "a.b", "a.{{ x }}", None])})
    o = gen_output(d, 0, None)
    o["name"], o["file"] = None, "f.txt"
    return {"templates": templates, "output": o, "structure": d.choice(["list", "dictionary", "flat_list"]), "only": d.choice([None, None, ["one"], ["two", "one"]])}


@sub(P, "result", gen_result, 5000, 60000, "an output changed or delivered something")
def result(case):
    o = copy.deepcopy(case["output"])
    kw = {}
    if o["funcs"]:
        if o["as"] == "attr":
            for f in o["funcs"]:
                n, a = func_text(f)
                kw[n] = a
        else:
            kw["functions"] = " | ".join("%s(%s)" % func_text(f) for f in o["funcs"])
    for k in ("format", "returner"):
        if o[k]:
            kw[k] = o[k]
    if o["condition"]:
        kw["condition"] = "%s, %s" % tuple(o["condition"])
    if not kw:
        return None
    with api.Scratch() as folder:
        kw.update(url=folder + "/out/", filename=o["file"])
        p = api.new()
        p.add_function(custom, "output", "custom")
        for t in case["templates"]:
            name = ' name="%s"' % t["group"] if t["group"] else ""
            macro = MACRO.replace('"wrapped"', '"wrapped_%s"' % t["name"]).replace('"pair"', '"pair %s"' % t["name"])
            vs = "\n".join("%s = %r" % kv for kv in t["vars"].items())
            p.add_template('<template name="%s">\n%s\n<vars>\n%s\n</vars>\n<group%s>\nrow {{ x }}\n</group>\n</template>' % (t["name"], macro, vs, name))
            p.add_input("".join("row %s\n" % r for r in t["rows"]) or "none\n", template_name=t["name"])
        p.parse()
        plain = copy.deepcopy(p.result(structure="dictionary"))
        log, want = {"files": {}, "terminal": ""}, []
        chosen = [t for t in case["templates"] if not case["only"] or t["name"] in case["only"]]
        for t in chosen:
            FUNCS["m_wrap"] = lambda x: {"wrapped_%s" % t["name"]: x}
            FUNCS["m_pair"] = lambda x: [x, "pair %s" % t["name"]]
            try:
                want.append([t["name"], run_output(o, plain[t["name"]], t["vars"], log)])
            finally:
                FUNCS["m_wrap"] = lambda x: {"wrapped": x}
                FUNCS["m_pair"] = lambda x: [x, "pair"]
        if case["structure"] == "list":
            want = [w for _, w in want]
        elif case["structure"] == "dictionary":
            want = dict(want)
        else:
            flat_ = []
            for _, w in want:
                for i in w if isinstance(w, list) else [w]:
                    flat_ += i if isinstance(i, list) else [i]
            want = flat_
        given = copy.deepcopy(kw)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            got = p.result(structure=case["structure"], templates=case["only"], **given)
        eq(got, want, "result()")
        files = {}
        if os.path.isdir(folder + "/out"):
            for f in os.listdir(folder + "/out"):
                with open(folder + "/out/" + f, encoding="utf-8", newline="") as fh:
                    files[f] = fh.read()
        eq(files, log["files"], "files written")
        eq(out.getvalue(), log["terminal"], "text printed")
        if not any(f == ["macro", "m_change"] for f in o["funcs"]):  # changes the results in place
            eq(p.result(structure="dictionary"), plain, "results afterwards")
    return ["condition" if o["condition"] else "always"] if chosen else None
