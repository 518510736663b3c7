"""P17: inputs and groups - each piece of data is parsed by exactly the groups it is meant for, in order."""
import os

from vlib import api, gen
from vlib.core import eq, sub

P = "P17"
GROUPS = ["ga*", "gb*", "x.gc*", "gd*"]
INPUTS = ["Default_Input", "in one", "two", "three"]


def datum(d, n, serial):
    return "\n".join(["#%d" % serial] + ["%s %s" % (gen.KEYWORDS[d.int(0, n - 1)], d.text(gen.ALNUM, 1, 3)) for _ in range(d.int(0, 5))])


@gen.cases
def routing(d):
    serial = [0]
    pool = []

    def data(n):
        if pool and d.bool(15):
            return d.choice(pool)  # the same text once more
        serial[0] += 1
        pool.append(datum(d, n, serial[0]))
        return pool[-1]

    templates = []
    for t in range(d.choice([1, 1, 2])):
        n = d.choice([1, 2, 3, 4, 5, 5, 9, 12])
        groups = []
        for i in range(n):
            src = None
            if d.bool(35):
                src = d.sample(INPUTS + ["late"], d.choice([1, 1, 2]))
                if d.bool(20):
                    src[-1] = "file%d" % i
            groups.append({"name": d.choice(GROUPS), "input": src})
        tags = []
        for _ in range(d.choice([0, 0, 1, 1, 2, 3])):
            k = d.choice(["text", "text", "text", "python", "yaml", "url", "json"])
            tags.append({"name": d.choice(INPUTS + [None]), "groups": pick_groups(d), "how": k, "data": [data(n) for _ in range(1 if k == "text" else d.int(1, 2))], "tag": d.choice(["input", "in", "i", "INPUT"]), "groups_in_text": d.bool(50)})
        templates.append({"groups": groups, "tags": tags, "files": {"file%d" % i: data(n) for i in range(n) if any(g["input"] and "file%d" % i in g["input"] for g in groups)}})
    ops = []
    for _ in range(d.int(0, 5)):
        k = d.choice(["add", "add", "add", "set", "clear", "parse"])
        op = {"op": k, "template": d.choice([None, "t0", "t1", "_all_"])}
        if k in ("add", "set"):
            op.update(name=d.choice(INPUTS + ["late", None]), groups=pick_groups(d, False), data=data(d.choice([4, 4, 12])), file=d.bool(25))
        ops.append(op)
    return {"templates": templates, "ops": ops, "child_tags": d.bool(40), "base": d.choice(["", "tag", "arg"])}


def pick_groups(d, text=True):
    k = d.int(0, 5)
    if k < 3:
        return None
    if k == 3:
        return ["all"]
    return d.sample(GROUPS + ["unknown", "all"], d.int(1, 3))


class Model:
    def __init__(self, groups):
        self.groups, self.inputs = groups, {}

    def indexes(self, name, groups):
        mine = [i for i, g in enumerate(self.groups) if g["input"] and name in g["input"]]
        if mine:
            return mine
        groups = groups or ["all"]
        return [i for i, g in enumerate(self.groups) if not g["input"] and ("all" in groups or g["name"] in groups)]

    def add(self, name, groups, data):
        inp = self.inputs.setdefault(name, {"data": [], "groups": set()})
        inp["groups"].update(self.indexes(name, groups))
        for x in data:
            if x not in inp["data"]:
                inp["data"].append(x)

    def parse(self, text_of):
        out = []
        for inp in self.inputs.values():
            for x in inp["data"]:
                res = {}
                for i in sorted(inp["groups"]):
                    items = [{"v": ln.split()[1]} for ln in text_of(x).splitlines() if ln.split()[:1] == [gen.KEYWORDS[i]]]
                    if items:
                        node = res
                        path = self.groups[i]["name"].rstrip("*").split(".")
                        for part in path[:-1]:
                            node = node.setdefault(part, {})
                        node.setdefault(path[-1], []).extend(items)
                out.append(res)
        return out


@sub(P, "routing", routing, 5000, 200000, "some lines reached a group and some lines had no group to go to")
def check_routing(case):
    texts, models, contents = [], [], {}
    with api.Scratch() as folder:
        def file(text):
            """Path of a file with the text, one for each use."""
            path = os.path.join(folder, "d%d.txt" % len(contents))
            api.write(path, text)
            contents[path] = text
            return path

        text_of = lambda x: contents[x[1]] if x[0] == "file" else x[1]  # noqa: E731
        base = folder + "/" if case["base"] else ""
        for ti, t in enumerate(case["templates"]):
            m = Model([dict(g) for g in t["groups"]])
            body, loads = [], []
            for tag in t["tags"]:
                name = tag["name"] or "Default_Input"
                attrs = "" if tag["name"] is None else ' name="%s"' % name
                groups = tag["groups"]
                if tag["how"] == "text":
                    data, inner = [("text", tag["data"][0])], tag["data"][0]
                    if groups:
                        attrs += ' groups="%s"' % ", ".join(groups)
                    attrs += ' load="text"'
                else:
                    paths = [file(x) for x in tag["data"]]
                    data = [("file", x) for x in paths]
                    rel = [x[len(base):] for x in paths]
                    opts = {}
                    if tag["how"] == "url":
                        attrs += ' url="%s"' % rel[0]
                        data = data[:1]
                    else:
                        opts["url"] = rel if len(rel) > 1 else rel[0]
                        attrs += ' load="%s"' % tag["how"]
                    if groups and tag["groups_in_text"] and tag["how"] != "url":
                        opts["groups"] = groups
                    elif groups:
                        attrs += ' groups="%s"' % ",".join(groups)
                    if tag["how"] == "python":
                        inner = "\n".join("%s = %r" % kv for kv in opts.items())
                    elif tag["how"] == "yaml":
                        inner = "\n".join("%s: %s" % (k, v if isinstance(v, str) else "[%s]" % ", ".join('"%s"' % x for x in v)) for k, v in opts.items())
                    else:
                        import json

                        inner = json.dumps(opts) if opts else ""
                body.append("<%s%s>\n%s\n</%s>" % (tag["tag"], attrs, inner, tag["tag"]))
                if tag["how"] == "text":
                    data = [("text", "\n%s\n" % inner)]
                loads.append((name, groups, data))
            for gi, g in enumerate(t["groups"]):
                attrs = ""
                if g["input"]:
                    srcs = list(g["input"])
                    for k, s in enumerate(srcs):
                        if s in t["files"]:
                            path = file(t["files"][s])
                            srcs[k] = path[len(base):]
                    m.groups[gi]["input"] = srcs
                    attrs = ' input="%s"' % ", ".join(srcs)
                body.append('<group name="%s"%s>\n%s {{ v }}\n</group>' % (g["name"], attrs, gen.KEYWORDS[gi]))
            # groups of inputs depend on all the groups, inputs that only groups refer to come last
            for name, groups, data in loads:
                m.add(name, groups, data)
            for g in m.groups:
                for s in g["input"] or []:
                    if s not in m.inputs:
                        m.add(s, None, [("file", base + s)] if base + s in contents else [])
            models.append(m)
            texts.append("\n".join(body))
        names = ["t%d" % i for i in range(len(texts))] if len(texts) > 1 else ["_root_template_"]
        bp = ' base_path="%s"' % base if case["base"] == "tag" else ""
        p = api.new(**({"base_path": base} if case["base"] == "arg" else {}))
        if case["child_tags"]:
            if len(texts) == 1:
                p.add_template("<template%s>\n%s\n</template>" % (bp, texts[0]))
            else:
                p.add_template("<template%s>\n%s\n</template>" % (bp, "\n".join('<template name="%s">\n%s\n</template>' % x for x in zip(names, texts))))
        else:
            for nm, x in zip(names, texts):
                p.add_template("<template%s>\n%s\n</template>" % (bp, x), template_name=nm)

        def compare():
            want = [m.parse(text_of) for m in models]
            p.parse(one=True)
            eq(p.result(), want, templates=texts, ops=case["ops"], models=[m.inputs for m in models])
            p.clear_result()
            return want

        for op in case["ops"]:
            tn = op["template"]
            if op["op"] == "parse":
                compare()
                continue
            affected = [m for nm, m in zip(names, models) if tn == "_all_" or nm == (tn or ("_all_" if op["op"] == "clear" else "_root_template_"))]
            if op["op"] == "clear" and tn is None:
                affected = models
            kw = {} if tn is None else {"template_name": tn}
            if op["op"] in ("set", "clear"):
                for m in affected:
                    m.inputs = {}
            if op["op"] == "clear":
                p.clear_input(**kw)
                continue
            data = op["data"]
            item = ("text", data)
            if op["file"]:
                data = file(data)
                item = ("file", data)
            for m in affected:
                m.add(op["name"] or "Default_Input", op["groups"], [item])
            if op["name"]:
                kw["input_name"] = op["name"]
            if op["groups"]:
                kw["groups"] = op["groups"]
            (p.add_input if op["op"] == "add" else p.set_input)(data, **kw)
        want = compare()
    found = sum(len(str(w)) > 2 for ws in want for w in ws)
    total = sum(len(m.groups) for m in models)
    routed = any(len(i["groups"]) < total and i["data"] for m in models for i in m.inputs.values())
    labels = []
    if found and routed:
        labels = ["routed"] + (["several templates"] if len(models) > 1 else []) + (["ops"] if case["ops"] else [])
    return labels
