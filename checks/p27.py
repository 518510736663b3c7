"""P27: returners deliver results where and as documented."""
import contextlib
import copy
import io
import json
import logging
import os
import re
import socket
import sys
import time
import types
from xml.sax.saxutils import quoteattr

from vlib import api, gen
from vlib.core import Discard, ensure, eq, sub

P = "P27"

# ------------------------------------------------------------------ file


@gen.cases
def gen_file(d):
    templates = []
    for t in range(d.choice([1, 1, 2, 2, 3])):
        outs = []
        for o in range(d.int(1, 3)):
            outs.append({
                "name": d.choice([None, "out%d" % o]),
                "filename": d.choice([None, "f%d.txt" % d.int(0, 3), "{host}.txt", "{host}_{site}.log", "x_%Y.txt", "{site}-%Y-{count}", "{missing}_{host}.txt", "rec_{seen}.txt"]),
                "url": d.choice(["o", "o/", "o/deep/er", "p/", "{folder}"]),
                "returner": d.choice(["file", "file", "file, self", "self,file"]),
                "format": d.choice(["raw", "json", "pprint", "yaml"]),
            })
        templates.append({"site": d.choice([None, "here", "there", "site%d" % t]), "inputs": [["sw%d" % d.int(1, 3), [[d.text(gen.ALNUM, 1, 6), d.choice(["1", "2", "30"])] for _ in range(d.int(0, 3))]] for _ in range(d.choice([1, 1, 2, 3]))], "outputs": outs, "per": d.choice(["per_input", "per_input", "per_template"]), "group": d.bool(25)})
    return {"templates": templates, "existing": d.bool(40), "ways": d.choice(["parse", "parse", "parse", "result"])}


@sub(P, "file", gen_file, 900, 15000, "two files, or a name formed from variables")
def file(case):
    import yaml
    from pprint import pformat

    fmt = {"raw": str, "json": lambda x: json.dumps(x, sort_keys=True, indent=4, separators=(",", ": ")), "pprint": lambda x: pformat(x, indent=4), "yaml": lambda x: yaml.dump(x, default_flow_style=False)}
    full, plain, want, labels = [], [], [], set()
    with api.Scratch() as folder:
        case_result = []
        for n, t in enumerate(case["templates"]):
            t["inputs"] = [i for m, i in enumerate(t["inputs"]) if i not in t["inputs"][:m]]  # the same text is loaded once
            vars_ = {"host": "gethostname", "count": n}
            if t["site"]:
                vars_["site"] = t["site"]
            head = ["<template name='t%d' results='%s'>" % (n, t["per"]), "<vars>", *("%s = %r" % kv for kv in vars_.items()), "</vars>"]
            for host, rows in t["inputs"]:
                head.append("<input load='text'>\n%s# show\n%s\n</input>" % (host, "\n".join("row %s %s" % tuple(r) for r in rows) or "none"))
            body = "row {{ x | record(seen) }} {{ y }}"
            outs, names = [], []
            for o in t["outputs"]:
                o = dict(o)
                if t["group"] and not o["name"]:
                    o["name"] = "unnamed%d" % len(outs)
                if o["name"] and o["name"] in names:
                    o["name"] = o["name"] + "x"
                names.append(o["name"])
                url = o["url"].replace("{folder}", "%s/abs" % folder)
                o["where"] = os.path.join(folder, url)
                attrs = {"returner": o["returner"], "format": o["format"], "url": o["where"]}
                if o["name"]:
                    attrs["name"] = o["name"]
                if o["filename"]:
                    attrs["filename"] = o["filename"]
                o["attrs"] = attrs
                outs.append(o)
            tags = ["<output%s/>" % "".join(" %s=%s" % (k, quoteattr(v)) for k, v in o["attrs"].items()) for o in outs] if case["ways"] == "parse" else []
            group = "<group name='g*'%s>\n%s\n</group>" % (" output='%s'" % ",".join(names) if t["group"] and tags else "", body)
            full.append("\n".join(head + tags + [group, "</template>"]))
            plain.append("\n".join(head + ["<group name='g*'>\n%s\n</group>" % body, "</template>"]))
            case_result.append(outs)
        p = api.new()
        p.add_template("\n".join(plain))
        p.parse(one=True)
        results = p.result()
        year = time.strftime("%Y")
        files = {}

        def name_of(o, variables):
            if not o["filename"]:
                return None
            f = o["filename"].replace("%Y", year)
            try:
                return f.format(**variables)
            except KeyError:
                return f

        def put(o, variables, data):
            name = name_of(o, variables)
            key = os.path.join(o["where"], name) if name else (o["where"].rstrip("/"), o["name"])
            if name and "{" in o["filename"]:
                labels.add("vars")
            files[os.path.normpath(key) if isinstance(key, str) else key] = fmt[o["format"]](data)

        def chain(outs, variables, data):
            for o in outs:
                put(o, variables, data)
                if "self" in o["returner"] and case["ways"] == "parse" and o["format"] != "raw":
                    data = fmt[o["format"]](data)

        every, per_input = {}, []
        for n, t in enumerate(case["templates"]):
            for host, rows in t["inputs"]:
                v = {"host": host, "count": n}
                if t["site"]:
                    v["site"] = t["site"]
                if rows:
                    v["seen"] = rows[-1][0]
                    every["seen"] = rows[-1][0]
                per_input.append((n, v, dict(every)))
        # outputs of groups run as inputs are parsed
        for n, t in enumerate(case["templates"]):
            mine = [(v, e) for m, v, e in per_input if m == n]
            data = results[n]
            if t["group"] and case["ways"] == "parse":
                if t["per"] == "per_template" or len(data) != len(mine):
                    raise Discard("outputs of a group on results put together")
                for (v, e), res in zip(mine, data):
                    if not res:
                        continue
                    chain(case_result[n], dict(e, **v), res)
        for n, t in enumerate(case["templates"]):
            if t["group"] and case["ways"] == "parse":
                continue
            mine = [v for m, v, e in per_input if m == n]
            chain(case_result[n], dict(every, **mine[-1]), results[n])
        if case["existing"]:
            for k in list(files)[::2]:
                if isinstance(k, str):
                    api.write(k, "old text " * 500)
            api.write("%s/o/keep.txt" % folder, "kept")
        start = time.time()
        p = api.new()
        p.add_template("\n".join(full))
        p.parse(one=True)
        if case["ways"] == "result":
            for n, outs in enumerate(case_result):
                for o in outs:
                    p.result(templates="t%d" % n, **o["attrs"])
        end = time.time()
        got = {}
        for root, _, names in os.walk(folder):
            for name in names:
                with open(os.path.join(root, name), encoding="utf-8") as f:
                    got[os.path.join(root, name)] = f.read()
        if case["existing"]:
            eq(got.pop("%s/o/keep.txt" % folder, None), "kept", "file that was there before")
        for k in [k for k in files if isinstance(k, tuple)]:
            text = files.pop(k)
            found = []
            for path in sorted(got):
                m = re.fullmatch(r"%soutput_(\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d)\.txt" % re.escape(k[1] + "_" if k[1] else ""), os.path.basename(path))
                if m and os.path.normpath(os.path.dirname(path)) == os.path.normpath(k[0]):
                    ensure(int(start) - 1 <= time.mktime(time.strptime(m.group(1), "%Y-%m-%d_%H-%M-%S")) <= end, "time in the name", path=path, start=start, end=end)
                    found.append(path)
            # several when the second changed in between
            ensure(found and got[found[-1]] == text, "file of the default name with the results", output=k, text=text, got=got)
            labels.add("default")
            for path in found:
                got.pop(path)
        eq({os.path.relpath(k, folder): v for k, v in got.items()}, {os.path.relpath(k, folder): v for k, v in files.items()}, "files written", template="\n".join(full))
        total = len(files)
    return sorted(labels) + (["many"] if total > 1 else []) or None


# ------------------------------------------------------------------ terminal

RED = "False,No,Failed,Error,Failure,Fail,false,no,failed,error,failure,fail".split(",")
GREEN = "True,Yes,Success,Ok,true,yes,success,ok".split(",")
YELLOW = "Warning,warning".split(",")
CODES = {"31": "red", "32": "green", "33": "yellow"}


@gen.cases
def gen_terminal(d):
    vocabulary = RED + GREEN + YELLOW + ["down", "up", "0", "3", "nothing", "Notes", "unFailed", "m", "1", "a[b", "a.b", "{x}", "x"]
    words = {}
    for colour in ("red", "green", "yellow"):
        if d.bool(35):
            words[colour] = d.sample(["down", "up", "0", "31", "m", "a[b", "Fail", "Failed", "true", "True", "\\w", "a.b", "x"], d.int(0, 3))
    return {"items": [[d.choice(vocabulary) + d.choice(["", "", "x", "ed", " ", "-"]) for _ in range(d.int(1, 4))] for _ in range(d.int(1, 4))], "words": words, "long": d.bool(), "colour": d.bool(80), "format": d.choice(["raw", "json", "yaml", "pprint", "text"]), "blank": d.bool(20), "returner": d.choice(["terminal", "terminal,self"])}


@sub(P, "terminal", gen_terminal, 1500, 25000, "something is coloured, or nothing needs to be")
def terminal(case):
    import yaml
    from pprint import pformat

    data = [{"k": i} for i in case["items"]]
    if case["format"] == "text":
        data = "\n".join(" ".join(i) for i in case["items"])
    shown = {"json": lambda x: json.dumps(x, sort_keys=True, indent=4, separators=(",", ": ")), "pprint": lambda x: pformat(x, indent=4), "yaml": lambda x: yaml.dump(x, default_flow_style=False), "raw": str, "text": str}[case["format"]](data)
    words = {"red": RED, "green": GREEN, "yellow": YELLOW}
    attrs = {"returner": case["returner"], "format": case["format"].replace("text", "raw")}
    for colour, w in case["words"].items():
        words[colour] = w
        attrs[colour + ("_words" if case["long"] else "")] = (", " if case["blank"] else ",").join(w)
    if len(set(words["red"] + words["green"] + words["yellow"])) < len(words["red"] + words["green"] + words["yellow"]):
        raise Discard("two colours for a word")
    if case["colour"]:
        attrs["colour"] = ""
    p = api.new()
    p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
    p.add_template('<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n<output%s/>' % "".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs.items()))
    p.add_input("zz 1\n")
    stub = types.ModuleType("colorama")
    stub.init = lambda *a, **k: None
    before = sys.modules.get("colorama")
    sys.modules["colorama"] = stub
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            p.parse(one=True)
    finally:
        sys.modules.pop("colorama")
        if before:
            sys.modules["colorama"] = before
    got = out.getvalue()
    if case["returner"] == "terminal":
        eq(p.result(), [data], "results printed to the terminal")
    want = shown + "\n" if isinstance(shown, str) and case["format"] != "raw" else str(data).replace("\\n", "\n") + "\n"
    if not case["colour"]:
        eq(got, want, "text on the terminal")
        return ["plain"]
    if "\033" in want:
        raise Discard("escapes in the text")
    parts = re.split("\033\\[0(?:;(\\d\\d);40)?m", got)
    plain, coloured, inside = "", [], None
    rest = []
    # parts: text, code, text, code, text...
    plain = parts[0]
    rest.append(parts[0])
    for code, text in zip(parts[1::2], parts[2::2]):
        plain += text
        if code:
            ensure(inside is None, "a colour started within another", got=got)
            inside = CODES.get(code)
            ensure(inside, "unknown colour", got=got)
            ensure(text in words[inside], "coloured text is not a word of that colour", text=text, colour=inside, words=words, got=got)
            coloured.append(text)
        else:
            ensure(inside is not None, "colour ended twice", got=got)
            inside = None
            rest.append(text)
    eq(plain, want, "text on the terminal without colours", output=got)
    for text in rest:
        for colour in words:
            for w in words[colour]:
                ensure(w not in text, "word left without colour", word=w, colour=colour, got=got)
    # the longest of words that start at the same spot
    pos = 0
    allw = sorted(words["red"] + words["green"] + words["yellow"], key=len)
    i = 0
    for n, (code, text) in enumerate(zip(parts[1::2], parts[2::2])):
        i += len(parts[0]) if n == 0 else 0
        if code:
            best = [w for w in allw if want.startswith(w, i)]
            ensure(best and best[-1] == text, "a longer word is there", coloured=text, words=best, got=got)
        i += len(text)
    return ["coloured"] if coloured else ["nothing to colour"]


# ------------------------------------------------------------------ syslog


@gen.cases
def gen_syslog(d):
    def item():
        return d.choice([{"ip": "10.0.0.%d" % d.int(1, 9), "if": gen.word(d)}, {"a": d.int(0, 3)}, {}, "text", 5, [1, {"b": "é"}], None, 0])

    shape = d.choice(["flat", "path", "path", "path2"])
    data = []
    for _ in range(d.int(1, 4)):
        x = d.choice([[item() for _ in range(d.int(0, 3))], [item() for _ in range(d.int(0, 3))], {"one": item()}, item()])
        if shape != "flat" and d.bool(85):
            x = {"arp": x, "z": 1}
            if shape == "path2" and d.bool(85):
                x = {"top": x}
        data.append(x)
    return {"shape": shape, "data": data[0] if d.bool(25) else data, "servers": d.choice([1, 1, 2]), "iterate": d.choice([None, None, True, False]), "facility": d.choice([None, 77, 16, 0, 23]), "interval": d.choice([None, 0, 1, 0.5]), "how": d.choice(["python", "python", "attrs"]), "other": d.bool(20), "tuple": d.bool(20)}


@sub(P, "syslog", gen_syslog, 500, 6000, "something is sent")
def syslog(case):
    data = case["data"]
    path = {"flat": None, "path": "arp", "path2": "top.arp"}[case["shape"]]
    socks = []
    try:
        first = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        first.bind(("127.0.0.1", 0))
        socks.append(first)
        port = first.getsockname()[1]
        for n in range(2, case["servers"] + 1):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            socks.append(s)
            try:
                s.bind(("127.0.0.%d" % n, port))
            except OSError:
                raise Discard("no such port there")
        hosts = ["127.0.0.%d" % n for n in range(1, case["servers"] + 1)]
        attrs = {"port": str(port)}
        attrs["servers"] = hosts[0] if len(hosts) == 1 else hosts
        if case["how"] == "attrs" and len(hosts) > 1:
            raise Discard("a list of servers is loaded from text")
        for k in ("iterate", "facility", "interval"):
            if case[k] is not None:
                attrs[k] = case[k]
        if case["how"] == "attrs" and case["iterate"] is False:
            raise Discard("False is loaded from text")
        if path:
            attrs["path"] = path
        p = api.new()
        p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
        if case["how"] == "python":
            tag = '<output returner="syslog" load="python">\n%s\n</output>' % "\n".join("%s=%r" % kv for kv in attrs.items())
        else:
            tag = '<output returner="syslog"%s/>' % "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in attrs.items())
        p.add_template('<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n' + tag * (2 if case["other"] else 1))
        p.add_input("zz 1\n")
        want = []

        def down(x):
            if isinstance(x, list):
                return [down(i) for i in x]
            if isinstance(x, dict):
                for k in path.split("."):
                    x = x[k]
                return x
            return x

        for x in data if isinstance(data, list) else [data]:
            if not x:
                continue
            try:
                x = down(x) if path else x
            except (KeyError, TypeError, IndexError):
                continue
            if not x:
                continue
            want += x if isinstance(x, list) and case["iterate"] is not False else [x]
        want = want * (2 if case["other"] else 1)
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        level, null = root.level, logging.NullHandler()
        ttp_level = logging.getLogger("ttp").level
        logging.getLogger("ttp").setLevel(logging.CRITICAL + 1)
        root.addHandler(null)
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                p.parse(one=True)
        finally:
            logging.disable(logging.CRITICAL)
            root.removeHandler(null)
            logging.getLogger("ttp").setLevel(ttp_level)
        pri = (77 if case["facility"] is None else case["facility"]) * 8 + 6
        for host, s in zip(hosts, socks):
            s.settimeout(0 if len(want) == 0 else 2)
            got = []
            while True:
                try:
                    got.append(s.recv(65535).decode("utf-8"))
                except (BlockingIOError, socket.timeout):
                    break
                if len(got) == len(want):
                    s.settimeout(0)
            heads = [g[: g.index(">") + 1] for g in got if ">" in g]
            eq(heads, ["<%d>" % pri] * len(want), "priority of messages at %s" % host, messages=got, stderr=err.getvalue()[-500:])
            eq([json.loads(g[g.index(">") + 1:]) for g in got], json.loads(json.dumps(want)), "messages at %s" % host)
        eq(p.result(), [data], "results sent to servers")
        leftover = logging.getLogger("_Custom_Syslog_Logger_").handlers
        eq(list(leftover), [], "handlers left behind")
    finally:
        for s in socks:
            s.close()
    return ["sent"] if want else None
