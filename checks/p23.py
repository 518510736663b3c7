"""P23: a template with extend tags does what the template with the content written in place does."""
import os

from vlib import api, gen
from vlib.core import eq, sub

P = "P23"

TAGS = {"group": ["group", "g", "grp"], "vars": ["vars", "v", "variables"], "input": ["input", "i", "in"], "output": ["output", "o", "out"], "lookup": ["lookup"], "macro": ["macro"]}
FILTERS = {"group": "groups", "vars": "vars", "input": "inputs", "output": "outputs", "lookup": "lookups"}


@gen.cases
def extended(d):
    kws = d.shuffle(gen.KEYWORDS)
    n = [0]
    files = []

    def nm(prefix):
        n[0] += 1
        return "%s%d" % (prefix, n[0])

    def line(words, indent=0):
        n[0] += 1
        extra = d.choice(["", "", " | set('tv%d')" % d.int(1, 3), " | lookup('tab%d', add_field='lk%d')" % (d.int(1, 2), n[0]), " | macro('m%d')" % d.int(1, 2)])
        kw = kws.pop() if kws else nm("kw")
        kw = " " * indent + kw
        words.append(kw)
        return "%s {{ x%d%s }}" % (kw, n[0], "" if "set" in extra else extra) + (" {{ y%d%s }}" % (n[0], extra) if "set" in extra and d.bool(0) else "")

    def group(level, words, decoy=False):
        g = {"kind": "group", "tag": d.choice(TAGS["group"]), "name": nm("g") + d.choice(["", "*"]) if d.bool(85) or level or decoy else None, "items": []}
        g["items"].append({"kind": "text", "text": "\n%s\n" % line(words)})
        if decoy:
            return g
        indent = d.choice([0, 0, 1, 2])
        for _ in range(d.int(0, 2)):
            g["items"].append({"kind": "text", "text": "%s\n" % line(words, indent)})
        if level < 2:
            for _ in range(d.choice([0, 0, 1, 2, 3])):
                if len(kws) > 25:
                    g["items"].append(group(level + 1, words))
            if d.bool(40):
                g["items"].append({"kind": "text", "text": "\n%s\n" % line(words, indent)})
        return g

    def tag(kind, words):
        if kind == "group":
            return group(0, words)
        t = {"kind": kind, "tag": d.choice(TAGS[kind]), "name": nm(kind)}
        if kind == "vars":
            t["body"] = "".join("tv%d = '%s'\n" % (d.int(1, 3), nm("val")) for _ in range(d.int(1, 2)))
            t["named"] = d.bool(50)
        elif kind == "lookup":
            t["name"] = "tab%d" % d.int(1, 2)
            t["body"] = "{'a': '%s', 'b': {'k': '%s'}}\n" % (nm("va"), nm("vb"))
        elif kind == "macro":
            t["body"] = "".join("def m%d(data):\n    return data + '%s'\n" % (d.int(1, 2), nm("m")) for _ in range(d.int(1, 2)))
        elif kind == "input":
            t["body"] = ""  # filled in later
        return t

    def section():
        words, tags = [], []
        for _ in range(d.int(1, 6)):
            k = d.choice(["group", "group", "group", "vars", "lookup", "input", "output", "macro"])
            tags.append(tag(k, words))
        if not any(t["kind"] == "group" for t in tags):
            tags.append(tag("group", words))
        for t in tags:
            if t["kind"] == "input":
                t["body"] = text(words)
        return tags, words

    def text(words):
        return "\n".join(["#%s" % nm("")] + ["%s %s" % (d.choice(words), d.choice(["a", "b", "c"])) for _ in range(d.int(2, 12))]) + "\n"

    def move(items, level, depth):
        """Move some of neighbouring items to files."""
        out, i = [], 0
        while i < len(items):
            it = items[i]
            if depth < 3 and d.bool(45):
                if it["kind"] == "text":
                    # the line a group starts with may be in a file as well
                    j = i + 1
                    while j < len(items) and items[j]["kind"] == "text" and d.bool(60):
                        j += 1
                else:
                    j = i + 1
                    while j < len(items) and items[j]["kind"] != "text" and d.bool(50):
                        j += 1
                out.append(extend(items[i:j], level, depth))
                i = j
            else:
                if it["kind"] == "group":
                    it = dict(it, items=move(it["items"], level + 1, depth))
                out.append(it)
                i += 1
        return out

    def extend(items, level, depth):
        fname = "f%d.txt" % len(files)
        files.append(None)
        me = len(files) - 1
        e = {"kind": "extend", "file": fname, "filters": {}, "macro": d.bool(20)}
        if items[0]["kind"] == "text":
            content = move(items, level, depth + 1) if d.bool(15) else items
            if any(x["kind"] == "extend" for x in content) and len(content) > 1:
                content = items
            files[me] = {"name": fname, "items": content, "template": False, "marker": e["macro"]}
            return e
        kinds = sorted({x["kind"] for x in items})
        content = list(items)
        for k in (["group"] if level else sorted(FILTERS)):
            mine = [x for x in items if x["kind"] == k]
            if not d.bool(35) or any(x["name"] is None for x in mine) and k != "group":
                continue
            if k in ("vars", "lookup", "input", "output") and not mine and d.bool(60):
                continue
            # everything of other names is left out
            for _ in range(d.int(0, 2)):
                extra = group(3, [], True) if k == "group" else dict(tag(k, ["zz"]), name=nm("decoy"))
                if k == "input":
                    extra["body"] = "nothing\n"
                if k in ("vars",):
                    extra["named"] = True
                content.insert(d.int(0, len(content)), extra)
            e["filters"][FILTERS[k]] = [x["name"] if k == "group" else None for x in mine]
            if k != "group":
                for x in mine:
                    x["named"] = True
                e["filters"][FILTERS[k]] = [x["name"] for x in mine]
        if level:
            for _ in range(d.int(0, 1)):
                # tags of other kinds are ignored inside of groups
                k = d.choice(["vars", "lookup", "output"])
                content.insert(d.int(0, len(content)), dict(tag(k, ["zz"]), named=True))
        if "groups" in e["filters"]:  # by name or by index
            gs = [x for x in content if x["kind"] == "group"]
            by_index = d.bool(40) or any(x["name"] is None for x in items if x["kind"] == "group")
            ids = {id(x) for x in items}
            e["filters"]["groups"] = [str(i) if by_index and (x["name"] is None or d.bool(70)) else x["name"] for i, x in enumerate(gs) if id(x) in ids] or ["nothing"]
        if e["filters"] or len(content) > len(items):
            # filters look at tags of the file itself, not at what its extend tags bring in
            content = [dict(x, items=move(x["items"], level + 1, depth + 1)) if x["kind"] == "group" else x for x in content]
        else:
            content = move(content, level, depth + 1)
        for k, v in e["filters"].items():
            if not v:
                e["filters"][k] = ["nothing"]
        del kinds
        files[me] = {"name": fname, "items": content, "template": d.bool(30), "marker": e["macro"]}
        return e

    sections = [section() for _ in range(d.choice([1, 1, 1, 2]))]
    return {"inline": [s[0] for s in sections], "extended": [move(s[0], 0, 0) for s in sections], "files": files, "data": [text(s[1]) for s in sections for _ in range(1)],
            "dir": d.choice(["abs", "env"])}


def render(items, folder):
    out = []
    for it in items:
        k = it["kind"]
        if k == "text":
            out.append(it["text"])
        elif k == "extend":
            attrs = "".join(' %s="%s"' % (f, ", ".join(v)) for f, v in it["filters"].items())
            out.append('\n<extend template="%s%s"%s%s/>\n' % (folder, it["file"], attrs, ' macro="unmark"' if it["macro"] else ""))
        elif k == "group":
            out.append("\n<%s%s>%s</%s>\n" % (it["tag"], "" if it["name"] is None else ' name="%s"' % it["name"], render(it["items"], folder), it["tag"]))
        else:
            attrs = ""
            if k in ("lookup", "input") or k == "vars" and it.get("named") or k == "output" and it.get("named"):
                attrs = ' name="%s"' % it["name"]
            if k == "output":
                attrs += " functions=\"wrap('%s')\"" % it["name"]
            if k == "input":
                attrs += ' load="text"'
            out.append("\n<%s%s>\n%s</%s>\n" % (it["tag"], attrs, it.get("body", ""), it["tag"]))
    return "".join(out)


UNMARK = "<macro>\ndef unmark(text):\n    return text.replace('@', '')\n</macro>\n"


def wrap(data, name):
    return {name: data}


def load(template, case):
    p = api.new()
    p.add_function(wrap, "output", "wrap")
    p.add_template(template)
    names = ["_root_template_"] if len(case["inline"]) == 1 else [str(i) for i in range(len(case["inline"]))]
    for nm, data in zip(names, case["data"]):
        p.add_input(data, template_name=nm)
    p.parse(one=True)
    return p


def whole(texts):
    if len(texts) == 1:
        return UNMARK + texts[0]
    return "<template>\n%s\n</template>" % "\n".join("<template>\n%s%s\n</template>" % (UNMARK, x) for x in texts)


@sub(P, "extend", extended, 4000, 150000, "a file was loaded and there are results")
def check_extend(case):
    with api.Scratch() as folder:
        prefix = folder + "/" if case["dir"] == "abs" else ""
        sources = {}
        for f in case["files"]:
            text = render(f["items"], prefix)
            if f["template"]:
                text = "<template>\n%s\n</template>" % text
            if f["marker"]:
                text = text.replace("{{", "{@{").replace("<", "<@") if text.strip() else text
            sources[f["name"]] = text
            api.write(os.path.join(folder, f["name"]), text)
        inline = whole([render(t, prefix) for t in case["inline"]])
        ext = whole([render(t, prefix) for t in case["extended"]])
        want = load(inline, case).result()
        if case["dir"] == "env":
            os.environ["TTP_TEMPLATES_DIR"] = folder
        try:
            p = load(ext, case)
        finally:
            os.environ.pop("TTP_TEMPLATES_DIR", None)
        got = p.result()
        eq(got, want, "results with extend tags", extended=ext, files=sources, inline=inline, data=case["data"])
        # the template TTP made of it can be loaded as it is
        if len(case["inline"]) == 1:
            eq(load(p.get_template(), case).result(), want, "results of get_template() text", template=p.get_template(), extended=ext)
    labels = []
    if case["files"] and any("'" in str(w) for w in want):
        labels = ["extended"]
        labels += ["filters"] if "filters" in ext and any(v["filters"] for v in walk(case)) else []
        labels += ["nested"] if any(x["kind"] == "extend" for f in case["files"] for x in f["items"]) else []
    return labels


def walk(case):
    todo = [x for t in case["extended"] for x in t] + [x for f in case["files"] for x in f["items"]]
    while todo:
        x = todo.pop()
        if x["kind"] == "extend":
            yield x
        todo += x.get("items", [])
