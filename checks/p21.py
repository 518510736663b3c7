"""P21: a TTP object with several templates, used again and again, gives what single use objects give."""
import copy

from vlib import api, gen
from vlib.core import ensure, eq, sub

P = "P21"
NAMES = ["one", "two", "one two"]
INPUTS = ["Default_Input", "inA", "inB"]


# ------------------------------------------------------------------ history of calls


def gen_template(d, kws, number):
    groups = []
    for i in range(d.int(1, 3)):
        lines = [[kws.pop(), d.choice(["", "", " | set", " | lookup", " | macro", " | record"])] for _ in range(d.int(1, 3))]
        lines[0][1] = d.choice(["", "", " | lookup"])
        groups.append({"name": d.choice([None, None, "g%d" % i, "g%d*" % i, "cfg.g%d" % i, "cfg.{{ x }}", "all*"]), "lines": lines})
    return {"groups": groups, "results": d.choice([None, None, "per_input", "per_template"]), "attr": d.choice([None, None] + NAMES), "vars": d.bool(60),
            "output": None, "text": d.choice([None, None, None, "tag%d" % number]), "plain": d.bool(15), "wrap": d.bool(50)}


def words(t):
    return [ln[0] for g in t["groups"] for ln in g["lines"]]


def data_text(d, pool, number):
    return "\n".join(["#%d" % number] + ["%s %s" % (d.choice(pool), d.choice(["a", "b", "c", "d"])) for _ in range(d.int(1, 7))])


@gen.cases
def history(d):
    kws = d.shuffle(gen.KEYWORDS)
    n, ops, pool = [0], [], []

    def number():
        n[0] += 1
        return n[0]

    def op_template():
        k = d.choice([1, 1, 2, 3])
        ts = []
        for _ in range(k):
            if len(kws) > 9:
                ts.append(gen_template(d, kws, number()))
                pool.extend(words(ts[-1]))
        if ts:
            for t in ts:
                if t["plain"]:  # nothing but text: a group without a name or tags
                    if d.bool(40):
                        t.update(results=None, attr=None)
                    t.update(groups=t["groups"][:1], vars=False, text=None, wrap=len(ts) > 1)
                    t["groups"][0].update(name=None, lines=[[w, ""] for w, _ in t["groups"][0]["lines"]])
                elif t["text"]:
                    t["text"] = data_text(d, words(t), number())
            ops.append({"op": "template", "templates": ts, "name": d.choice([None, None] + NAMES), "between": d.choice(["\n", "\n", "\n\n", "", "\nnotes {{ not a line }}\n"])})

    def target():
        return d.choice(["_all_", "_all_", "_all_", None, None, "missing", "0", "1"] + NAMES)

    def op_input(kind):
        t = d.choice([x for o in ops if o["op"] == "template" for x in o["templates"]])
        names = [g["name"] for g in t["groups"] if g["name"]]
        ops.append({"op": kind, "data": data_text(d, pool if d.bool(70) else words(t), number() if d.bool(85) else 1), "input": d.choice(INPUTS) if d.bool(60) else None, "template": target(),
                    "groups": d.sample(names, d.int(1, 2)) if names and d.bool(25) else None})

    op_template()
    for _ in range(d.int(2, 14)):
        k = d.choice(["input", "input", "input", "parse", "parse", "template", "set", "clear_input", "clear_result", "clear_result", "vars", "lookup", "result", "result"])
        if k == "template":
            op_template()
        elif k in ("input", "set"):
            op_input(k)
        elif k == "clear_input":
            ops.append({"op": k, "template": target()})
        elif k == "clear_result":
            ops.append({"op": k, "templates": d.choice([None, None, "one", "one two", ["one", "two"], ["missing"], "0", ["_root_template_"], []])})
        elif k == "vars":
            ops.append({"op": k, "vars": {"tv": "add%d" % number()}})
        elif k == "lookup":
            ops.append({"op": k, "table": {d.choice("abcd"): "look%d" % number() for _ in range(2)}})
        elif k == "result":
            ops.append({"op": k, "structure": d.choice(["list", "dictionary", "flat_list", "LIST", "Flat_List"]), "templates": d.choice([None, None, "one", "one two", ["one", "one two"], ["two", "one"], ["missing"], "0", "_root_template_", []])})
        else:
            ops.append({"op": k})
    ops.append({"op": "parse"})
    if d.bool(25):  # outputs make results something else: cleared before the next round
        for o in ops:
            for t in o.get("templates") or [] if o["op"] == "template" else []:
                if not t["plain"]:
                    t["output"] = d.choice([None, 'format="json"', 'format="yaml"', 'functions="o_wrap"', 'format="pprint"', 'macro="o_mac"', 'macro="o_vars"', 'macro="o_vars"'])
        if d.bool(30):  # a round that has nothing to parse
            ops += [{"op": "clear_input", "template": target()}, {"op": "parse"}]
        ops = [x for o in ops for x in ([{"op": "clear_result", "templates": None}, o] if o["op"] == "parse" else [o])]
    return {"ops": ops, "vars": d.choice([None, None, {"tv": "init"}]), "final": [["list", None], ["dictionary", None], ["flat_list", None], ["flat_list", "one"]]}


def attributes(t):
    return "".join(' %s="%s"' % (a, v) for a, v in [("name", t["attr"]), ("results", t["results"])] if v)


def in_tags(t, text):
    return "<template%s>\n%s\n</template>" % (attributes(t), text) if attributes(t) or t["wrap"] else text


def plain_text(t):
    return "".join("%s {{ x%s }}\n" % (w, i or "") for i, (w, _) in enumerate(t["groups"][0]["lines"]))


def single(t):
    """A template for an object that has only it: text without tags is what it is, or a group of that name."""
    if t["plain"]:
        return plain_text(t) if t["results"] != "per_template" else in_tags(t, '<group name="_anonymous_">\n%s</group>' % plain_text(t))
    return render(t)


def render(t):
    if t["plain"]:
        return in_tags(t, plain_text(t))
    out = ['<lookup name="lk">\n{"a": "tag a", "b": "tag b"}\n</lookup>', "<macro>\ndef mac(data):\n    return data + ' %s'\ndef o_mac(data):\n    return {'o': data}\ndef o_vars(data):\n    return {'o': data, 'v': [_ttp_['vars'].get(k) for k in ('tv', 'rv')]}\n</macro>" % t["groups"][0]["lines"][0][0]]
    if t["output"]:
        out.append("<output %s/>" % t["output"])
    if t["vars"]:
        out.append("<vars>\ntv = 'tag'\n</vars>")
    if t["text"]:
        out.append('<input load="text">\n%s\n</input>' % t["text"])
    for g in t["groups"]:
        out.append("<group%s>" % ("" if g["name"] is None else ' name="%s"' % g["name"]))
        for i, (w, f) in enumerate(g["lines"]):
            if f == " | set":
                out.append("%s {{ x%d | let('l%d', 'tv') }}" % (w, i, i))
            elif f == " | lookup":
                out.append("%s {{ x%s | lookup('lk', add_field='f%d') }}" % (w, i or "", i))
            elif f == " | record":
                out.append("%s {{ x%s | record('rv') }}" % (w, i or ""))
            elif f == " | macro":
                out.append("%s {{ x%s | macro('mac') }}" % (w, i or ""))
            else:
                out.append("%s {{ x%s }}" % (w, i or ""))
        out.append("</group>")
    return in_tags(t, "\n".join(out))


def o_wrap(data):
    return [len(data), data]


class Model:
    """A template of the object: what happened to it so far."""

    cache = {}

    def __init__(self, text, spec, name, init_vars):
        self.text, self.name, self.init = text, spec["attr"] or name, copy.deepcopy(init_vars)
        self.per_template = spec["results"] == "per_template"
        self.later, self.lookup, self.cleared, self.adds = {}, None, False, []
        self.results = []

    def parse(self):
        """One more round: the results of an object that has this template only and is used once."""
        p = api.new(vars=dict(self.init))
        p.add_function(o_wrap, "output")
        p.add_template(self.text)
        if self.later:
            p.add_vars(self.later)
        if self.lookup is not None:
            p.add_lookup("lk", text_data=repr(self.lookup))
        if self.cleared:
            p.clear_input()
        for data, name, groups in self.adds:
            p.add_input(data, input_name=name, groups=groups, template_name="_all_")
        p.parse(one=True)
        got = copy.deepcopy(p.result()[0])
        if self.per_template or self.results == []:
            self.results = got
        else:
            self.results = self.results + got
        return got


def structured(models, structure, names):
    names = [names] if isinstance(names, str) else names
    ms = [m for m in models if not names or m.name in names]
    structure = structure.lower()
    if structure == "list":
        return [m.results for m in ms]
    if structure == "dictionary":
        return {m.name: m.results for m in ms}
    out = []
    for m in ms:
        for x in m.results if isinstance(m.results, list) else [m.results]:
            if isinstance(x, list):
                out.extend(x)
            else:
                out.append(x)
    return out


@sub(P, "history", history, 5000, 150000, "at least two rounds with results or two templates with results")
def check_history(case):
    p = api.new(**({"vars": dict(case["vars"])} if case["vars"] else {}))
    p.add_function(o_wrap, "output")
    variables = dict(case["vars"] or {})
    models, kept = [], []
    rounds = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "template":
            ts = op["templates"]
            texts = [render(t) for t in ts]
            if len(ts) == 1:
                texts_all = texts[0]
                new = [Model(single(ts[0]), ts[0], op["name"] or "_root_template_", variables)]
            else:
                texts = [x if x.startswith("<template") else "<template>\n%s\n</template>" % x for x in texts]
                texts_all = op["between"].join(texts)
                new = [Model(single(t), t, str(i), variables) for i, t in enumerate(ts)]
            p.add_template(texts_all, **({"template_name": op["name"]} if op["name"] else {}))
            models += new
        elif k in ("input", "set"):
            kw = {a: op[b] for a, b in (("input_name", "input"), ("template_name", "template"), ("groups", "groups")) if op[b]}
            name = op["template"] or "_root_template_"
            for m in models:
                if name in ("_all_", m.name):
                    if k == "set":
                        m.cleared, m.adds = True, []
                    m.adds.append((op["data"], op["input"] or "Default_Input", op["groups"]))
            (p.add_input if k == "input" else p.set_input)(op["data"], **kw)
        elif k == "clear_input":
            for m in models:
                if op["template"] in (None, "_all_", m.name):
                    m.cleared, m.adds = True, []
            p.clear_input(**({"template_name": op["template"]} if op["template"] else {}))
        elif k == "clear_result":
            names = [op["templates"]] if isinstance(op["templates"], str) else op["templates"]
            for m in models:
                if not names or m.name in names:
                    m.results = []
            p.clear_result(**({"templates": op["templates"]} if op["templates"] is not None else {}))
        elif k == "vars":
            for m in models:
                m.later.update(op["vars"])
            variables.update(op["vars"])
            p.add_vars(dict(op["vars"]))
        elif k == "lookup":
            for m in models:
                m.lookup = dict(op["table"])
            p.add_lookup("lk", text_data=repr(op["table"]))
        elif k == "parse":
            p.parse(one=True)
            got = [m.parse() for m in models]
            rounds += sum(1 for g in got if "'x" in str(g) or '"x' in str(g))
        elif k == "result":
            got = p.result(structure=op["structure"], **({"templates": op["templates"]} if op["templates"] is not None else {}))
            eq(got, structured(models, op["structure"], op["templates"]), "result(structure=%r, templates=%r)" % (op["structure"], op["templates"]), ops=case["ops"])
            kept.append((op, got, copy.deepcopy(got)))
    for structure, names in case["final"]:
        eq(p.result(structure=structure, templates=names), structured(models, structure, names), "result(structure=%r, templates=%r)" % (structure, names), ops=case["ops"])
    eq(p.result(), structured(models, "list", None), "result()", ops=case["ops"])
    for op, got, was in kept:
        eq(got, was, "results returned earlier, after later calls", by=op, ops=case["ops"])
    ensure(all(m.text for m in models), "empty template")
    if rounds > 1:
        return ["several rounds"] + (["templates"] if len(models) > 1 else []) + (["kept"] if any(x[2] for x in kept) else [])


# ------------------------------------------------------------------ filters of add_template


@gen.cases
def filtered(d):
    names = ["one", "two", "three", "vlans.txt", "x y"]
    files = []
    for f in range(d.int(1, 3)):
        k = d.choice([1, 1, 2, 3, 4])
        free = d.shuffle(names)
        files.append({"arg": d.choice([None, None, "arg%d" % f, "two"]), "top": d.choice([None, "outer%d" % f]) if k > 1 else None,
                      "children": [{"name": free.pop() if d.bool(80) else None, "kw": "kw%s" % "abcdefghijklm"[f * 4 + i]} for i in range(k)],
                      "filters": d.sample(names + ["_root_template_", "arg%d" % f, "outer%d" % f, "0", "nothing"], d.int(1, 4)) if d.bool(80) else None})
    return {"files": files}


@sub(P, "filters", filtered, 1500, 40000, "some templates are left out and some are not")
def check_filters(case):
    p = api.new()
    want, out = [], 0
    for f in case["files"]:
        single = len(f["children"]) == 1
        texts = ["<template%s>\n<group name='g'>\n%s {{ x }}\n</group>\n</template>" % (' name="%s"' % c["name"] if c["name"] else "", c["kw"]) for c in f["children"]]
        text = texts[0] if single else "\n".join(texts)
        if f["top"]:
            text = '<template name="%s">\n%s\n</template>' % (f["top"], text)
        kw = {a: b for a, b in (("template_name", f["arg"]), ("filters", f["filters"])) if b}
        p.add_template(text, **kw)
        for c in f["children"]:
            name = c["name"] or f["arg"] or "_root_template_" if single else c["name"]
            if not f["filters"] or name in f["filters"]:
                want.append({"g": {"x": c["kw"] * 2}})
            else:
                out += 1
    p.add_input("\n".join("%s %s" % (c["kw"], c["kw"] * 2) for f in case["files"] for c in f["children"]), template_name="_all_")
    p.parse(one=True)
    got = [x for x in p.result(structure="flat_list") if x]
    eq(got, want, "results of templates in filters", files=case["files"])
    return ["filtered"] if out and want else []
