"""P18: loading of input data - the same text gives the same results wherever it comes from; the right files are loaded."""
import json
import os
import re

from vlib import api, gen
from vlib.core import Discard, eq, sub

P = "P18"

# ------------------------------------------------------------------ which files


@gen.cases
def files(d):
    exts = ["txt", "log", "conf", "cfg", "TXT", "t", ""]
    stems = ["sw-1", "sw-2", "sw3", "rtr.a", "rtr", "txt", "x y", "a.txt.old", "a.conf.bak", "txt.1", "\u00e9-9", "log", "SW-1"]
    names = set()
    for _ in range(d.int(1, 7)):
        e = d.choice(exts)
        names.add(d.choice(stems) + ("." + e if e else ""))
    names = sorted(names)
    sub_ = d.choice(["", "", "deep", "deep.txt"])
    return {"names": names, "texts": [d.text(gen.ALNUM, 1, 4) for _ in names], "sub": sub_,
            "extensions": d.choice([None, None, "txt", ["txt"], ["txt", "log"], ["conf", "t"], "", []]),
            "filters": d.choice([None, None, r"sw-\d", [r"^sw"], [r"sw\-\d.*", r"^rtr"], [r"1", r"\.log$"], r"\.", [r"nothing"], [r"(?i)^SW"], ["a", "t", "1"]]),
            "via": d.choice(["attr", "python", "yaml", "json"]), "urls": d.choice(["dir", "dir", "dir/", "two", "two", "two again", "file", "missing+dir"]), "base": d.choice([0, 1, 2])}


@sub(P, "files", files, 2500, 60000, "some files of the directory are loaded and some are not")
def check_files(case):
    with api.Scratch() as folder:
        want = []
        ext, flt = case["extensions"], case["filters"]
        exts = [ext] if isinstance(ext, str) else ext or []
        flts = [flt] if isinstance(flt, str) else flt or []
        loaded = skipped = 0
        chosen = []
        for n, t in zip(case["names"], case["texts"]):
            api.write(os.path.join(folder, "data", n), "name %s\n" % t)
            ok = (not exts or n.rsplit(".", 1)[-1] in exts or ("." not in n and n in exts)) and (not flts or any(re.search(f, n) for f in flts))
            if ok:
                chosen.append(t)
            loaded += ok
            skipped += not ok
        if case["sub"]:
            api.write(os.path.join(folder, "data", case["sub"], "inner.txt"), "name inner\n")
        api.write(os.path.join(folder, "more", "sw-1.txt"), "name more\n")
        more_ok = (not exts or "txt" in exts) and (not flts or any(re.search(f, "sw-1.txt") for f in flts))
        base = folder + "/" if case["base"] else ""
        rel = "" if case["base"] else folder + "/"
        urls, want = {
            "dir": ([rel + "data"], chosen), "dir/": ([rel + "data/"], chosen), "two": ([rel + "data", rel + "more"], chosen + (["more"] if more_ok else [])),
            "two again": ([rel + "more", rel + "data"], (["more"] if more_ok else []) + chosen),
            "file": ([rel + "data/" + case["names"][0]], case["texts"][:1]), "missing+dir": ([rel + "nothing_here", rel + "data"], chosen)}[case["urls"]]
        opts = {"url": urls if len(urls) > 1 else urls[0]}
        if ext is not None:
            opts["extensions"] = ext
        if flt is not None:
            opts["filters"] = flt
        if case["via"] == "attr":
            if any(isinstance(v, list) for v in opts.values()):
                raise Discard
            tag = "<input %s/>" % " ".join('%s="%s"' % (k, gen.xml_attr(v)) for k, v in opts.items())
        elif case["via"] == "python":
            tag = '<input load="python">\n%s\n</input>' % gen.xml("\n".join("%s = %r" % kv for kv in opts.items()))
        elif case["via"] == "yaml":
            tag = '<input load="yaml">\n%s\n</input>' % gen.xml("\n".join("%s: %s" % (k, json.dumps(v)) for k, v in opts.items()))
        else:
            tag = '<input load="json">\n%s\n</input>' % gen.xml(json.dumps(opts))
        t = "<template%s>\n%s\n<group name='g*'>\nname {{ n }}\n</group>\n</template>" % (' base_path="%s"' % base if case["base"] == 1 else "", tag)
        p = api.new(**({"base_path": base} if case["base"] == 2 else {}))
        p.add_template(t)
        p.parse(one=True)
        got = [r["g"][0]["n"] for r in p.result()[0] if r]
        eq(sorted(got), sorted(want), template=t, files=case["names"])
        if more_ok and case["urls"].startswith("two"):
            eq(got.index("more") if "more" not in chosen else None, want.index("more") if "more" not in chosen else None, "urls in the order given", template=t)
        if case["via"] != "attr":
            eq(p.get_input_load(), {"_root_template_": {"Default_Input": opts}}, "input load", template=t)
        if case["urls"] in ("dir", "two", "two again", "dir/", "missing+dir") and loaded and skipped:
            return [case["via"]] + (["several filters"] if len(flts) > 1 else [])


# ------------------------------------------------------------------ the same text by different ways


@gen.cases
def sources(d):
    lines, indent = [], d.choice(["", "", " ", "\t"])
    for _ in range(d.int(1, 8)):
        k = d.int(0, 5)
        if k < 3:
            lines.append(indent + "name %s" % gen.word(d, avoid="\r"))
        elif k == 3:
            lines.append(indent + " val %s" % gen.word(d))
        elif k == 4:
            lines.append("")
        else:
            lines.append("! " + gen.word(d))
    return {"lines": lines, "indent": indent, "newline": d.choice(["\n", "\n", "\r\n"]), "end": d.choice(["", "\n", "\n\n"]), "start": d.choice(["", "\n"]),
            "way": d.choice(["data file", "add file", "dir", "tag", "tag url", "group input", "structured", "data text", "relative", "set"]), "twice": d.bool(20)}


GROUP = "<group name='g*'{a}>\n{i}name {{{{ n | re('\\S+') }}}}\n{i} val {{{{ v | re('\\S+') }}}}\n</group>"


@sub(P, "sources", sources, 3000, 80000, "the data has records")
def check_sources(case):
    nl = case["newline"]
    text = case["start"] + nl.join(case["lines"]) + case["end"]
    way = case["way"]
    indent = case["indent"]
    g = GROUP.format(a="", i=indent)
    want = []
    for line in case["lines"]:
        if line.startswith(indent + "name "):
            want.append({"n": line.split(" ")[-1]})
        elif line.startswith(indent + " val ") and want:
            want[-1].setdefault("v", line.split(" ")[-1])
    want = {"g": want} if want else {}
    nl_file = nl
    with api.Scratch() as folder:
        path = os.path.join(folder, "some dir", "data.txt")
        api.write(path, text)
        os.chdir(folder)
        if way == "data file":
            p = api.new(data=path, template=g)
        elif way == "data text":
            if not text:
                raise Discard
            p = api.new(data=text, template=g)
        elif way == "dir":
            p = api.new(data=os.path.dirname(path), template=g)
        elif way == "relative":
            p = api.new(data="some dir/data.txt", template=g)
        elif way == "add file":
            p = api.new(template=g)
            p.add_input(path)
        elif way == "set":
            p = api.new(data="name other", template=g)
            p.set_input(text)
        elif way == "tag":
            p = api.new(template='<input load="text">%s</input>\n%s' % (gen.xml(text), g))
            if not text:
                raise Discard
        elif way == "tag url":
            p = api.new(template='<input url="%s"/>\n%s' % (path, g))
        elif way == "group input":
            p = api.new(template=GROUP.format(a=" input='%s'" % path, i=indent))
        else:
            t = '<macro>\ndef totext(data):\n    return "\\n" + "\\n".join(data["lines"]) + "\\n\\n"\n</macro>\n<input macro="totext"/>\n' + g
            p = api.new(template=t)
            p.add_input({"lines": case["lines"]})
        if case["twice"] and way in ("add file", "data text"):
            p.add_input(text if way == "data text" else path)  # the same item is parsed once
        p.parse(one=True)
        got = p.result()
        os.chdir(os.path.join(os.environ["VERIF_SCRATCH"], "cwd"))
    eq(got, [[want]], way=way, text=text)
    return [way] if want else None


# ------------------------------------------------------------------ structured load


@gen.cases
def loads(d):
    def value(depth=2):
        k = d.int(0, 9 if depth else 6)
        if k < 3:
            return d.choice(["", "a b", "x: y", "1", "true", "\u00e9", "<tag> & more", "it's", 'q"q', "a\\b", "[1"])
        if k < 7:
            return d.choice([0, 7, -1, True, False, None, 2.5])
        if k < 9:
            return [value(depth - 1) for _ in range(d.int(0, 3))]
        return {d.text(gen.LOWER, 1, 4): value(depth - 1) for _ in range(d.int(0, 3))}

    templates = []
    for i in range(d.choice([1, 1, 2])):
        inputs = []
        for nm in d.sample(["one", "two words", None, "z.9"], d.choice([0, 1, 2, 3])):
            inputs.append({"name": nm, "how": d.choice(["python", "yaml", "json", "text", None]), "data": {"k_" + d.text(gen.LOWER, 1, 5): value() for _ in range(d.int(1, 4))}})
        templates.append(inputs)
    return {"templates": templates}


@sub(P, "input load", loads, 2500, 60000, "an input with structured text")
def check_loads(case):
    import yaml

    p = api.new()
    want, texts = {}, []
    for i, inputs in enumerate(case["templates"]):
        body = ["<group name='g'>\nname {{ n }}\n</group>"]
        exp = {}
        for inp in inputs:
            how, data = inp["how"], inp["data"]
            text = {"python": "\n".join("%s = %r" % kv for kv in data.items()), "yaml": yaml.safe_dump(data, allow_unicode=True), "json": json.dumps(data), "text": "name x", None: "\n".join("%s = %r" % kv for kv in data.items())}[how]
            body.append("<input%s%s>\n%s\n</input>" % ("" if inp["name"] is None else ' name="%s"' % inp["name"], "" if how is None else ' load="%s"' % how, gen.xml(text)))
            exp[inp["name"] or "Default_Input"] = {} if how == "text" else data
        texts.append("\n".join(body))
        nm = "t%d" % i
        want[nm] = exp
        p.add_template(texts[-1], template_name=nm)
    eq(p.get_input_load(), want, templates=texts)
    return [str(x["how"]) for t in case["templates"] for x in t if x["how"] != "text"]


# ------------------------------------------------------------------ commands

PROMPTS = {"ios": ("{h}#", ["cpe-1", "R1", "core.sw", "a"]), "exec": ("{h}>", ["cpe-1", "R_2"]), "xr": ("RP/0/4/CPU0:{h}#", ["xr-1", "core.xr"]), "junos": ("adm.in@{h}>", ["fw-1"]), "huawei": ("<{h}>", ["HW-1", "h.w"])}
CMDS = ["show version", "show int", "show interfaces", "show interf", "show run | include x", "show ip route 10.0.0.1", "show vlan (all)", "sh ver", "show log | i a+b", "show interfaces status", "display version", "Show Clock", "show RUN | i BGP"]


@gen.cases
def commands(d):
    kind = d.choice(sorted(PROMPTS))
    host = d.choice(PROMPTS[kind][1])
    n = [0]

    def out():
        lines = []
        for _ in range(d.int(0, 3)):
            n[0] += 1
            k = d.int(0, 9)  # values, blank lines, lines that mention the device
            lines.append("name v%d" % n[0] if k < 7 else "" if k < 9 else d.choice(["link to %s#Gi1", " %s> is up", "to %s # x", "is %s"]) % host)
        return lines

    ran = [[d.choice(CMDS), out(), d.choice(["", "", " "]), d.choice(["", "", " "])] for _ in range(d.int(1, 5))]
    return {"kind": kind, "host": host, "ran": ran, "ask": d.sample(CMDS, d.choice([1, 1, 2, 3])), "head": out(), "style": d.int(0, 3), "last": d.bool(50), "crlf": d.bool(20)}


@sub(P, "extract commands", commands, 3000, 80000, "a part of commands is extracted")
def check_commands(case):
    prompt = PROMPTS[case["kind"]][0].format(h=case["host"])
    lines = list(case["head"])
    for cmd, out, before, after in case["ran"]:
        lines.append(prompt + before + cmd + after)
        lines += out
    if case["last"]:
        lines.append(prompt)
    asked = case["ask"]
    args = ", ".join(asked)
    if case["style"] == 0:
        attr = 'extract_commands="%s"' % args
    elif case["style"] == 1:
        attr = "functions=\"extract_commands(%s)\"" % ", ".join("'%s'" % c for c in asked)
        if any("|" in c for c in asked):
            raise Discard
    else:
        attr = ""
    text = ("\r\n" if case["crlf"] and not attr else "\n").join(lines)
    tag = '<input load="text" %s>\n%s\n</input>' % (attr, gen.xml(text))
    if not attr:
        tag = '<input load="python">\nextract_commands = %r\n</input>' % args
    p = api.new(template="%s\n<group name='g*'>\nname {{ n }}\n</group>" % tag)
    if not attr:
        p.add_input(text)
    p.parse(one=True)
    want, hits = [], 0
    for c in asked:
        for cmd, out, _, _ in case["ran"]:
            if cmd == c:
                hits += 1
                want += [{"n": x[5:]} for x in out if x.startswith("name")]
                break
    if not hits:
        raise Discard  # nothing to extract: not claimed
    got = p.result()[0]
    got = [g for g in got if g] or [{}]
    eq(got, [{"g": want} if want else {}], text=text, tag=tag)
    return [case["kind"]] if hits < len({c[0] for c in case["ran"]}) else None
