"""P12: lookups - table lookups in every loader format, lookups in results of groups and templates."""
import copy
import json
import os

from vlib import api, gen
from vlib.core import eq, sub

P = "P12"

KEYS = ["65100", "65101", "up", "core", "Gi0/1", "10.1.1.1", "vic", "-mel-", "a", "ab", "abc", "X", "x", "65", "site_1", "é"]
WORDS = KEYS + ["vic-mel-core1", "qld-bri-core1", "Up", "core-ab", "651001", "xyz", "none", "X1", "Gi0/1.5", "b"]
CELLS = ["Subs", "Private ASN", "734", "", "a,b", "x \"q\" y", "<&>", "é", "N/A", "1.5", "two\nlines", "li\u2028ne", " lead", "trail ", "a  b"]


OLD = {"up": "old", "none": {"old": 1}, "top": {"lvl": {"up": "old"}}, "lvl": {"core": "old"}, "old": ["*"]}


def cell(d):
    return d.choice(CELLS)


def struct_value(d):
    k = d.int(0, 5)
    if k < 2:
        return d.choice(["v1", "two words", "0", "x"])
    if k == 2:
        return d.choice([1, 65100, True, 1.5, 0, False, ""])
    if k == 3:
        return [d.choice(["l1", "l2", 3]) for _ in range(d.int(1, 2))]
    return {d.choice(["name", "desc", "num"]): d.choice(["n", 5, ["z"]]) for _ in range(d.int(1, 2))}


def csv_text(d, headers, rows):
    def q(c, force):
        if force or any(x in c for x in ",\"\n"):
            return '"' + c.replace('"', '""') + '"'
        return c
    return "\n".join(",".join(q(c, d.bool(15)) for c in r) for r in [headers] + rows)


def py_text(d, table):
    if d.bool(50) and all(k.isidentifier() for k in table):
        return "\n".join("%s = %r" % kv for kv in table.items())
    return repr(table)


def yaml_text(d, table):
    import yaml

    return yaml.safe_dump(table, default_flow_style=d.choice([None, False, True]), allow_unicode=True, sort_keys=False)


def yaml_block(table):
    import yaml

    return yaml.safe_dump(table, default_flow_style=False, allow_unicode=True, sort_keys=False) if table else ""


def make_table(d, name):
    """{name, load, key, text, data}"""
    load = d.choice(["csv", "ini", "python", "json", "yaml"])
    t = {"name": name, "load": load, "key": None}
    keys = d.sample(KEYS, d.int(1, 5))
    if load == "csv":
        headers = d.sample(["ASN", "as_name", "desc", "n"], d.int(2, 4))
        rows = [[k] + [cell(d) for _ in headers[1:]] for k in keys]
        if d.bool(40):  # key column elsewhere
            pos = d.int(0, len(headers) - 1)
            t["key"] = headers[pos]
            rows = [[cell(d) if j else k for j in range(len(headers))] for k in keys]
            rows = [r[1:pos + 1] + [r[0]] + r[pos + 1:] for r in rows]
        else:
            pos = 0
        t["text"] = csv_text(d, headers, rows)
        t["data"] = {r[pos]: {h: c for j, (h, c) in enumerate(zip(headers, r)) if j != pos} for r in rows}
        t["paths"] = [""]
    elif load == "ini":
        data, lines = {}, []
        for sec in d.sample(["cities", "roles", "Main"], d.int(1, 2)):
            lines.append("[%s]" % sec)
            data[sec] = {}
            for k in d.sample(KEYS, d.int(1, 4)):
                v = d.choice(["7 Name St, Suburb A", "x", "5", "A = b: c", "é", "x # y", "a;b", "p ; q", "#n"])
                lines.append(k + d.choice([" : ", " = ", ": ", "="]) + v)
                data[sec][k] = v
        t["text"], t["data"] = "\n".join(lines), data
        t["paths"] = ["." + s for s in data] + [""]
    else:
        table = {k: struct_value(d) for k in keys}
        deep = d.bool(40)
        if deep:
            table = {"lvl": table, "other": {"up": "no"}}
            if d.bool(50):
                table = {"top": table}
        t["data"] = table
        t["paths"] = [""] + ([".lvl", ".other"] if "lvl" in table else [".top.lvl", ".top.other", ".top"] if "top" in table else [])
        t["text"] = {"python": py_text, "json": lambda d, x: json.dumps(x, indent=d.choice([None, 2])), "yaml": yaml_text}[load](d, table)
    t["via"] = d.choice(["tag", "tag", "tag", "include", "api", "api-include"])
    if load in ("csv", "ini", "yaml") and d.bool(25):  # a part in the template, the rest in a file
        t["via"] = d.choice(["include", "api-include"])
        if load == "csv":
            cut = d.int(0, len(rows))
            t["text"], t["more"] = csv_text(d, headers, rows[:cut]), csv_text(d, rows[cut], rows[cut + 1:]) if cut < len(rows) else ""
        elif load == "yaml":
            cut = d.int(1, len(table))
            parts = list(table.items())[:cut], list(table.items())[cut:]
            t["text"], t["more"] = [yaml_block(dict(x)) for x in parts]
        else:  # what the template has is more specific than what the file has
            t["more"] = "\n".join("[%s]\n%s = old\n%s = from file" % (sec, d.choice(list(data[sec])), k)
                                  for sec in d.sample(list(data), d.int(1, len(data))) for k in ["zone"])
            for line in t["more"].split("\n"):
                if line.startswith("["):
                    data[line[1:-1]].setdefault("zone", "from file")
    return t


def glob_table(d, name):
    pats = ["vic*", "*core*", "X", "?b*", "[a-c]*", "65???", "*1", "Gi*", "none", "*-*-*"]
    data = {}
    for k in d.sample(["core_dev", "access", "lab", "other"], d.int(1, 3)):
        data[k] = d.sample(pats, d.int(1, 3))
    return {"name": name, "load": "python", "key": None, "text": repr(data), "data": data, "paths": [""], "via": "tag", "glob": True}


@gen.cases
def tables(d):
    ts = [make_table(d, "tbl%d" % i) for i in range(d.int(1, 2))]
    if d.bool(40):
        ts.append(glob_table(d, "globs"))
    kws = d.shuffle(gen.KEYWORDS)
    lines = []
    for i in range(d.int(1, 4)):
        t = d.int(0, len(ts) - 1)
        fn = "gpvlookup" if ts[t].get("glob") else d.choice(["lookup", "lookup", "rlookup"])
        path = d.choice(ts[t]["paths"]) if d.bool(92) else ".nope"
        kw = {}
        if d.bool(45):
            kw["add_field"] = "f%d" % i
        if fn == "gpvlookup" and d.bool(40):
            kw["multimatch"] = True
        after = d.choice([None, None, None, None, "append", "prepend"]) if "add_field" not in kw else None
        lines.append({"kw": kws.pop(), "t": t, "fn": fn, "path": path, "kwargs": kw, "after": after})
    seq = []
    pool = WORDS + [k for t in ts for k in list(t["data"])] * 2
    for _ in range(d.int(3, 8)):
        seq.append([d.int(0, len(lines) - 1), d.choice(pool) if d.bool(90) else gen.word(d)])
    for t in ts:  # a table added later replaces the one that was there
        t["before"] = d.choice([None, None, "tag", "api"]) if "api" in t["via"] else None
    return {"tables": ts, "lines": lines, "seq": seq, "inputs": d.choice([1, 1, 2])}


def glob_match(s, p):
    """fnmatch without the library: * ? [a-c]"""
    if not p:
        return not s
    if p[0] == "*":
        return any(glob_match(s[i:], p[1:]) for i in range(len(s) + 1))
    if not s:
        return False
    if p[0] == "[":
        lo, hi, end = p[1], p[3], p.index("]")
        return lo <= s[0] <= hi and glob_match(s[1:], p[end + 1:])
    return (p[0] == "?" or p[0] == s[0]) and glob_match(s[1:], p[1:])


def find(ln, t, value):
    """(found, what)"""
    data = t["data"]
    for p in ln["path"].split("."):
        if p:
            data = data.get(p, {}) if isinstance(data, dict) else {}
    if ln["fn"] == "lookup":
        if isinstance(data, dict) and value in data:
            return True, data[value]
        return False, None
    if ln["fn"] == "rlookup":
        for k in data:
            if k in value:
                return True, data[k]
        return False, None
    hits = [k for k, pats in data.items() if any(glob_match(value, p) for p in pats)]
    if not hits:
        return False, None
    return True, hits if ln["kwargs"].get("multimatch") else hits[:1]


def dedup(x):
    return list(dict.fromkeys(x)) if isinstance(x, list) and all(isinstance(i, str) for i in x) else x


def setup(p, t, scratch):
    """Template text for a table, or the call of the API."""
    attrs = 'name="%s" load="%s"' % (t["name"], t["load"])
    kw = {"load": t["load"]}
    if t["key"]:
        attrs += ' key="%s"' % t["key"]
        kw["key"] = t["key"]
    path = os.path.join(scratch, t["name"] + ".txt")
    if "include" in t["via"]:
        api.write(path, t.get("more", t["text"]))
    if "more" in t and t["via"] == "include":
        return '<lookup %s include="%s">\n%s\n</lookup>' % (attrs, path, gen.xml(t["text"])), None
    if "more" in t:
        return "", dict(kw, include=path, text_data=t["text"])
    if t["via"] == "tag":
        return "<lookup %s>\n%s\n</lookup>" % (attrs, gen.xml(t["text"])), None
    if t["via"] == "include":
        return '<lookup %s include="%s"/>' % (attrs, path), None
    if t["via"] == "api":
        return "", dict(kw, text_data=t["text"])
    return "", dict(kw, include=path)


def spoil(x):
    """Change everything that can be changed in place."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["spoiled"] = "spoiled"
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")


@sub(P, "tables", tables, 5000, 200000, "at least one value was found in a table and at least one was not")
def check_tables(case):
    template, calls = [], []
    with api.Scratch() as scratch:
        for t in case["tables"]:
            text, call = setup(None, t, scratch)
            template.append(text)
            if t["before"] == "tag":
                template.append("<lookup name=\"%s\" load=\"python\">\n%r\n</lookup>" % (t["name"], OLD))
            elif t["before"]:
                calls.append((t["name"], {"text_data": repr(OLD)}))
            if call:
                calls.append((t["name"], call))
        for i, ln in enumerate(case["lines"]):
            t = case["tables"][ln["t"]]
            args = ["'%s%s'" % (t["name"], ln["path"])] + ["%s=%r" % kv for kv in ln["kwargs"].items()]
            fn = "%s(%s)" % (ln["fn"], ", ".join(args))
            if ln["after"]:
                fn += ' | %s("zz")' % ln["after"]
            template.append('<group name="g%d*">\n%s {{ v | %s }}\n</group>' % (i, ln["kw"], fn))
        p = api.new()
        p.add_template("\n".join(template))
        for name, kw in calls:
            p.add_lookup(name, **kw)
    data = "\n".join("%s %s" % (case["lines"][i]["kw"], v) for i, v in case["seq"])
    for n in range(case["inputs"]):  # identical text is loaded once
        p.add_input(data + "\n!%d" % n)
    want, hit, miss = {}, 0, 0
    for i, v in case["seq"]:
        ln = case["lines"][i]
        ok, what = find(ln, case["tables"][ln["t"]], v)
        hit, miss = hit + ok, miss + (not ok)
        rec = {"v": v}
        if ok and "add_field" in ln["kwargs"]:
            rec[ln["kwargs"]["add_field"]] = copy.deepcopy(what)
        elif ok:
            rec["v"] = copy.deepcopy(what)
        if ln["after"]:
            if isinstance(rec["v"], str):
                rec["v"] = rec["v"] + "zz" if ln["after"] == "append" else "zz" + rec["v"]
            elif isinstance(rec["v"], list):
                rec["v"].insert(len(rec["v"]) if ln["after"] == "append" else 0, "zz")
            else:
                return None  # append has no meaning for this value
        want.setdefault("g%d" % i, []).append(rec)
    for t in range(2):
        p.parse(one=True)
        got = p.result()
        for x in got[0]:
            for g, recs in x.items():
                for r in recs if case["lines"][int(g[1:])]["fn"] == "gpvlookup" else []:
                    for k in r:  # a key with several matching patterns
                        r[k] = dedup(r[k])
        eq(got, [[want] * case["inputs"]], template="\n".join(template), data=data, run=t)
        # changes made to a record stay in it, and do not reach the tables
        first = next(iter(got[0][0].values()), [None])[0] if got[0] else None
        spoil(first)
        rest = [copy.deepcopy(want) for _ in range(case["inputs"])]
        if first is not None:
            got[0][0][next(iter(got[0][0]))][0] = rest[0][next(iter(got[0][0]))][0] = "spoiled"
        eq(got, [rest], "results after changes made to one record", template="\n".join(template), data=data, run=t)
        spoil(got)
        p.clear_result()
    if hit and miss:
        return sorted({ln["fn"] + " " + case["tables"][ln["t"]]["load"] for ln in case["lines"]} | {"via " + t["via"] + (" and text" if "more" in t else "") for t in case["tables"]})
    return None


# ------------------------------------------------------------------ lookups in results


@gen.cases
def results(d):
    table = {}
    for k in d.sample(["e1", "e2", "e3", "Gi0/1", "vlan5"], d.int(1, 4)):
        table[k] = [[c, d.choice(["A", "B", "10.0.0.1", "x y"])] for c in d.sample(["desc", "vrf", "ip", "n"], d.int(1, 3))]
    seq = [[d.choice(["e1", "e2", "e3", "Gi0/1", "vlan5", "zz"]), d.choice(["1", "2"])] for _ in range(d.int(1, 6))]
    by = d.choice(["match", "group"])
    src = d.choice(["group", "template", "table", "template_per"]) if by == "group" else d.choice(["group", "template", "template_per"])
    action = d.choice([{"add_field": "info"}, {"update": True}, {}, {"replace": True}, {"replace": False}]) if by == "group" else \
        d.choice([{"add_field": "info"}, {}])
    return {"table": table, "seq": seq, "by": by, "src": src, "action": action, "same_input": by == "group" and src == "group" and d.bool(50),
            "per": src == "group" and d.bool(25), "deep": d.bool(30),
            # nothing to look up in: the table is not there, is a list or a value, or its template has no results yet
            "wrong": d.choice(["", "", "", "nopath", "list", "value", "name", "noinput"]),
            # templates with names alike
            "decoy": d.choice(["", "", "src_old", "sr", "Src"]),
            # other inputs of the template the lookup refers to: results of its first input count
            "more": [[d.choice(["e1", "e2", "zz"]), d.choice(["A", "other"])] for _ in range(d.choice([0, 0, 1, 2]))] if src == "template" else []}


@sub(P, "results", results, 3000, 100000, "at least one value was found and at least one was not, or there was nothing to look up in")
def check_results(case):
    path = "top.ifs" if case["deep"] else "ifs"
    src_group = '<group name="%s.{{ ifname }}"%s>\ninterface {{ ifname }}\n desc {{ desc | ORPHRASE }}\n vrf {{ vrf | ORPHRASE }}\n ip {{ ip | ORPHRASE }}\n n {{ n | ORPHRASE }}\n</group>'
    data1 = "\n".join("interface %s\n%s" % (k, "\n".join(" %s %s" % tuple(c) for c in v)) for k, v in case["table"].items())
    data2 = "\n".join("arp %s on %s" % (n, k) for k, n in case["seq"])
    a = dict(case["action"])
    where = {"group": {"group": path}, "template": {"template": "src." + path}, "template_per": {"template": "src." + path},
             "table": {"name": "tbl." + path}}[case["src"]]
    wrong = case.get("wrong", "")
    if wrong == "noinput" and case["src"] not in ("template", "template_per"):
        wrong = "nopath"
    if wrong == "list" and case["src"] != "table":
        wrong = "value"
    if wrong and wrong != "noinput":
        k0 = sorted(case["table"])[0]
        suffix = {"nopath": ".nope", "list": ".list", "value": ".%s.%s.x" % (k0, case["table"][k0][0][0])}.get(wrong, "")
        if wrong == "value" and "." in k0:
            suffix = ".nope"
        where = {k: (v + suffix if wrong != "name" else v.replace("src.", "no.").replace("tbl.", "no.").replace("ifs", "no"))
                 for k, v in where.items()}
    a.update(where)
    args = ", ".join("%s=%r" % kv for kv in a.items())
    if case["by"] == "match":
        arp = '<group name="arp*"%%s>\narp {{ n }} on {{ k | lookup(%s) }}\n</group>' % args
    else:
        arp = '<group name="arp*"%%s lookup="\'k\', %s">\narp {{ n }} on {{ k }}\n</group>' % args
    table = {k: {c: x for c, x in v} for k, v in case["table"].items()}
    want = []
    hits = miss = 0
    for k, n in case["seq"]:
        rec = {"n": n, "k": k}
        if k in table and not wrong:
            hits += 1
            f = copy.deepcopy(table[k])
            if "add_field" in a:
                rec["info"] = f
            elif case["by"] == "group" and a.get("update"):
                rec.update(f)
            elif a.get("replace", True):
                rec["k"] = f
        else:
            miss += 1
        want.append(rec)
    src_res = {"top": {"ifs": table}} if case["deep"] else {"ifs": table}
    per = ' results="per_template"' if case["per"] or case["src"] == "template_per" else ""
    if case["src"] == "group":
        if case["same_input"]:
            t = "<template%s>\n%s\n%s\n</template>" % (per, src_group % (path, ""), arp % "")
            w = dict(src_res, arp=want)
            full = [w] if per else [[w]]
            inputs = [(data1 + "\n" + data2, "Default_Input", None)]
        else:
            t = "<template%s>\n<input name=\"one\"/>\n<input name=\"two\"/>\n%s\n%s\n</template>" % (
                per, src_group % (path, ' input="one"'), arp % ' input="two"')
            full = [dict(src_res, arp=want)] if per else [[src_res, {"arp": want}]]
            inputs = [(data1, "one", None), (data2, "two", None)]
    elif case["src"] == "table":
        lk = copy.deepcopy(src_res)
        (lk["top"] if case["deep"] else lk)["ifs"]["list"] = [{k: 1 for k, _ in case["seq"]}]
        t = "<template>\n<lookup name=\"tbl\" load=\"json\">\n%s\n</lookup>\n%s\n</template>" % (json.dumps(lk), arp % "")
        full = [[{"arp": want}]]
        inputs = [(data2, "Default_Input", None)]
    else:
        t = "<template name=\"src\"%s>\n%s\n</template>\n<template name=\"dst\">\n%s\n</template>" % (per, src_group % (path, ""), arp % "")
        full = [src_res if per else [src_res], [{"arp": want}]]
        decoy = case.get("decoy", "")
        if decoy:
            t = "<template name=\"%s\">\n%s\n</template>\n" % (decoy, src_group % (path, "")) + t
        inputs = [(data1, "Default_Input", "src")]
        for n, (k, v) in enumerate(case["more"]):
            inputs.append(("interface %s\n desc %s\n!%d" % (k, v, n), "Default_Input", "src"))
            sub_res = {"ifs": {k: {"desc": v}}}
            full[0].append({"top": sub_res} if case["deep"] else sub_res)
        if wrong == "noinput":
            inputs, full[0] = [], {} if per else []
        if decoy:
            names = sorted({k for k, _ in case["seq"]} | set(case["table"]))
            inputs.insert(0, ("\n".join("interface %s\n desc decoy" % k for k in names), "Default_Input", decoy))
            sub_res = {"ifs": {k: {"desc": "decoy"} for k in names}}
            full.insert(0, [{"top": sub_res} if case["deep"] else sub_res])
        inputs.append((data2, "Default_Input", "dst"))
    p = api.new(template=t)
    for text, name, templates in inputs:
        if templates:
            p.add_input(text, input_name=name, template_name=templates)
        else:
            p.add_input(text, input_name=name)
    p.parse(one=True)
    eq(p.result(), full, template=t, inputs=inputs)
    recs = next((x["arp"] for r in p.result() for x in (r if isinstance(r, list) else [r]) if "arp" in x), [])
    if recs:  # changes made to a record stay in it
        spoil(recs[0])
        recs[0] = want[0]
        eq(p.result(), full, "results after changes made to one record", template=t, inputs=inputs)
    if wrong:
        return ["%s %s %s" % (case["by"], case["src"], wrong)]
    return ["%s %s%s" % (case["by"], case["src"], per)] if hits and miss else None
