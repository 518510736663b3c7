"""P24: formatted results say exactly what the raw results say."""
import ast
import copy
import csv
import io
import json
import os
from xml.sax.saxutils import escape, quoteattr

from vlib import api, gen
from vlib.core import ensure, eq, sub

P = "P24"
ODD = ["", " ", "yes", "No", "null", "~", "1.0", "08", "0x1F", "1e3", "2002::1/64", "10:20:30", "- a", "a: b", "# c", "%x", "a\nb", "\ttab", " lead", "trail ", "'", '"', "''", '""', "\\", "\\n", "a,b", "a;b|c",
       "{}", "{a}", "[1]", "&a", "*a", "!x", "@", "`", "2020-01-01", "True", "=1+1", "\u00e9\u4e2d", "\U0001f600", "<b>", "None", "a\"b'c", '","', "...", "---", "|", ">"]
NAMES = ["interface", "ip", "mask", "vlan", "descr", "vrf", "Port-ID", "\u00e9tat", "a_b", "X"]


def value(d, deep=0):
    k = d.int(0, 9)
    if k < 4:
        return gen.word(d)
    if k < 7:
        return d.choice(ODD)
    if k == 7:
        return d.choice([0, 1, -5, 10 ** 20, 1.5, True, False, None])
    if deep >= 3:
        return "deep"
    if k == 8:
        return [value(d, deep + 1) for _ in range(d.int(0, 3))]
    return {n: value(d, deep + 1) for n in d.sample(NAMES, d.int(0, 3))}


def record(d, nested=False, lo=0):
    out = {}
    for n in d.sample(NAMES, d.int(lo, 5)):
        out[n] = value(d) if nested else (gen.word(d) if d.bool(60) else d.choice(ODD) if d.bool(80) else d.choice([1, None, True, 2.5, 0]))
    return out


def attrs_of(spec, how):
    """Attributes of an output tag, or what its text says."""
    if how == "attr":
        return "<output%s/>" % "".join(" %s=%s" % (k, quoteattr(v)) for k, v in spec.items())
    return "<output>\n%s\n</output>" % "\n".join("%s = %s" % (k, escape(repr(v))) for k, v in spec.items())


def run(data, spec, how, text=""):
    """What formatting of these results gives."""
    start = '<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n'
    inject = lambda _: copy.deepcopy(data)  # noqa: E731
    if how in ("attr", "text"):
        p = api.new()
        p.add_function(inject, "output", "inject")
        p.add_template(start + attrs_of(spec, how))
        p.add_input("zz 1\n")
        p.parse()
        return p.result()[0]
    if how == "group":  # results of a single group, formatted before they join the rest
        p = api.new()
        p.add_function(inject, "output", "inject")
        p.add_template('<group name="g" output="inj, fmt">\nzz {{ zz }}\n</group>\n<output name="inj" functions="inject"/>\n' + attrs_of(dict(spec, name="fmt"), "attr"))
        p.add_input("zz 1\n")
        p.parse()
        r = p.result()
        ensure(len(r) == 1 and len(r[0]) == 1 and len(r[0][0]) == 1, "results of a group with outputs", got=r)
        return r[0][0][0]
    p = api.new()
    p.add_function(inject, "output", "inject")
    p.add_template(start)
    p.add_input("zz 1\n")
    p.parse()
    before = copy.deepcopy(p.result())
    given = copy.deepcopy(spec)
    one = p.result(**given)
    eq(given, spec, "arguments given to result()")
    eq(p.result(), before, "results after they were formatted by result(%r)" % spec)
    two = p.result(**given)
    if not hasattr(one[0], "worksheets"):
        eq(two, one, "second formatting of the same results with result(%r)" % spec)
    three = p.result(structure="dictionary", **given)
    if not hasattr(one[0], "worksheets"):
        eq(three, {"_root_template_": one[0]}, "dictionary of formatted results")
    return one[0]


def text_keys(x):
    if isinstance(x, dict):
        return {str(k): text_keys(v) for k, v in x.items()}
    return [text_keys(i) for i in x] if isinstance(x, list) else x


@gen.cases
def gen_text(d):
    kind = d.int(0, 4)
    if kind == 0:
        data = [record(d, True) for _ in range(d.int(0, 3))]
    elif kind == 1:
        data = [[record(d, True) for _ in range(d.int(0, 3))] for _ in range(d.int(1, 3))]
    elif kind == 2:
        data = [{n: [record(d, True) for _ in range(d.int(1, 3))] for n in d.sample(NAMES, 3)}]
    elif kind == 3:
        data = {n: record(d, True) for n in d.sample(NAMES, d.int(0, 3))}
    else:
        data = [{"vlans": [[n, record(d)] for n in d.sample([1, 20, 300, 4000], d.int(1, 3))]}]
    return {"data": data, "numbers": kind == 4, "format": d.choice(["json", "yaml", "pprint", "raw"]), "how": d.choice(["attr", "text", "kwargs", "group", "chain"])}


@sub(P, "text", gen_text, 3500, 60000, "results have at least one value")
def text(case):
    data = case["data"]
    if case["numbers"]:
        data = [{"vlans": dict(data[0]["vlans"])}]
    fmt = case["format"]
    if case["how"] == "chain":
        p = api.new()
        p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
        p.add_template('<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n<output format="raw"/>\n<output format="%s"/>\n<output format="json"/>' % fmt)
        p.add_input("zz 1\n")
        p.parse()
        got = p.result()[0]
        got = json.loads(got)
        want_raw = text_keys(data) if fmt == "raw" else None
        if fmt == "raw":
            eq(got, want_raw, "raw, then json")
            return ["chain"]
    else:
        got = run(data, {"format": fmt}, case["how"])
    if fmt == "json":
        ensure(isinstance(got, str), "json formatter returns text", got=got)
        eq(json.loads(got), text_keys(data), "json.loads of what json formatter returned")
        if not case["numbers"]:
            eq(got, json.dumps(data, sort_keys=True, indent=4, separators=(",", ": ")), "layout of JSON text")
    elif fmt == "yaml":
        import yaml

        ensure(isinstance(got, str), "yaml formatter returns text", got=got)
        eq(yaml.safe_load(got), data, "YAML text loaded back", text=got)
    elif fmt == "pprint":
        ensure(isinstance(got, str), "pprint formatter returns text", got=got)
        eq(ast.literal_eval(got), data, "pprint text evaluated", text=got)
    else:
        eq(got, data, "raw results")
    return [fmt, case["how"]] if json.dumps(data).count(":") else None


# ------------------------------------------------------------------ tables

PATHS = ["", "ifs", "a.b", "a.b.c"]


@gen.cases
def gen_table(d):
    path = d.choice(PATHS)
    inputs = []
    strict = d.choice([None, None, True, False])
    key = d.choice(["", "", "", "key", "interface", "Port-ID"])
    complete = strict is not False
    dicts = bool(key)
    fmt = d.choice(["table", "csv", "csv", "tabulate"])
    for _ in range(d.int(1, 4)):
        shape = d.choice(["dict", "list", "keyed"] if not dicts else ["keyed", "keyed", "list"])
        if shape == "dict":
            at = record(d)
        elif shape == "list":
            at = [record(d) for _ in range(d.int(0, 4))]
        elif dicts:
            at = {gen.word(d, avoid=".") if d.bool(70) else d.choice(ODD[2:]): record(d) for _ in range(d.int(0, 4))}
        else:
            at = record(d)
        if path:
            parts = path.split(".")
            if complete or d.bool(70):
                for part in reversed(parts):
                    at = {part: at}
                    if d.bool(30):
                        at["other"] = d.choice(["x", {"y": "z"}, [1]])
            else:
                cut = d.int(0, len(parts) - 1)
                at = d.choice([{}, {"other": "x"}])
                for part in reversed(parts[:cut]):
                    at = {part: at}
            if d.bool(15) and isinstance(at, dict):
                at = [at]  # results of an input that has unnamed groups, too
                while complete and d.bool(50):
                    more = [record(d) for _ in range(d.int(0, 2))]
                    for part in reversed(parts):
                        more = {part: more}
                    at.insert(d.int(0, len(at)), more)
        inputs.append(at)
    headers = d.choice([None, None, 1, 1]) and d.sample(NAMES + ["key", "absent"], d.int(1, 5))
    spec = {"format": fmt}
    if path:
        spec["path"] = d.choice([path, path.replace(".", " . ")])
    if key:
        spec["key"] = key
    if headers:
        spec["headers"] = d.choice([", ", ",", " , "]).join(headers)
    if d.bool(40):
        spec["missing"] = d.choice(["-", "Undefined", "n/a", "", "a b"])
    how = d.choice(["attr", "text", "kwargs", "kwargs", "group"])
    if strict is not None and how in ("text", "kwargs"):
        spec["strict"] = strict
    elif strict is False:
        spec["strict"], how = False, d.choice(["text", "kwargs"])
    if how == "kwargs" and headers and d.bool(40):
        spec["headers"] = headers
    if fmt == "csv":
        if d.bool(40):
            spec["sep"] = d.choice([";", "|", ":", " "] + (["\t"] if how in ("text", "kwargs") else []))
        if d.bool(30):
            spec["quote"] = d.choice(["'", "~", "|"]) if spec.get("sep") != "|" else "'"
    if fmt == "tabulate" and d.bool(60):
        spec["format_attributes"] = d.choice(["tablefmt='grid'", "tablefmt='fancy_grid', numalign='left'", "disable_numparse=True", "tablefmt='plain', stralign='right'", "showindex=True"])
    alone = how == "group" or d.bool(10)
    return {"data": inputs[0] if alone and isinstance(inputs[0], dict) else inputs, "spec": spec, "how": how}


def records_at(item, key):
    """Rows described by what is found at the path."""
    if isinstance(item, list):
        return [r for i in item for r in (records_at(i, "") if isinstance(i, list) else [i])]
    if not item:
        return []
    if key:
        return [dict(v, **{}) | {key: k} for k, v in item.items()]
    return [item]


def at_path(data, path):
    if isinstance(data, list):
        return [at_path(i, path) for i in data]
    for part in path:
        if part not in data:
            return {}
        data = data[part]
    return data


def table_of(data, path=None, key="", headers=None, missing="", **_):
    path = [i.strip() for i in path.split(".")] if path else []
    rows = []
    for one in data if isinstance(data, list) else [data]:
        rows += records_at(at_path(one, path), key)
    if isinstance(headers, str):
        headers = [i.strip() for i in headers.split(",")]
    headers = headers or sorted({k for r in rows for k in r})
    return [headers] + [[r.get(h, missing) for h in headers] for r in rows]


@sub(P, "table", gen_table, 6000, 120000, "table has a row at least")
def table(case):
    data, spec = case["data"], case["spec"]
    want = table_of(data, **{k: v for k, v in spec.items() if k != "format"})
    got = run(data, spec, case["how"])
    fmt = spec["format"]
    if fmt == "table":
        eq(got, want, "table")
    elif fmt == "csv":
        ensure(isinstance(got, str), "csv formatter returns text", got=got)
        if want[0]:
            sep, quote = spec.get("sep", ","), spec.get("quote", '"')
            rows = list(csv.reader(io.StringIO(got, newline=""), delimiter=sep, quotechar=quote, strict=True))
            eq(rows, [[str(v) for v in r] for r in want], "CSV text read back", text=got)
    else:
        from tabulate import tabulate

        kw = eval("dict(%s)" % spec.get("format_attributes", ""))
        eq(got, tabulate(want[1:], headers=want[0], **kw), "tabulate text")
    return [fmt, case["how"], "key" if spec.get("key") else "rows"] if len(want) > 1 else None


# ------------------------------------------------------------------ workbooks


def cell(d):
    return d.choice([gen.word(d), gen.word(d), d.choice([o for o in ODD]), d.choice([0, 7, 1.5, True, None])])


@gen.cases
def gen_excel(d):
    rounds = []
    names = ["ifs", "Vlans 1", "\u00e9tat", "Sheet7", "A-b"]
    for n in range(d.int(1, 3)):
        data, tabs = [{}], []
        for i, name in enumerate(d.sample(names, d.int(1, 3))):
            recs = [{k: cell(d) for k in d.sample(NAMES, d.int(1, 4))} for _ in range(d.int(1, 3))]
            tab = {}
            path = d.choice(["p%d", "x.p%d"]) % i
            key = d.bool(30)
            at = {gen.word(d, avoid="."): r for r in recs} if key else recs
            if path.startswith("x."):
                data[0].setdefault("x", {})["p%d" % i] = at
            else:
                data[0][path] = at
            tab["path"] = path
            if key:
                tab["key"] = "interface"
            if d.bool(40):
                tab["headers"] = ", ".join(d.sample(NAMES, d.int(1, 4)))
            if d.bool(30):
                tab["missing"] = d.choice(["-", "n/a"])
            if d.bool(60):
                tab["tab_name"] = name
            if d.bool(20):
                tab["strict"] = d.bool()
            tabs.append(tab)
        if d.bool(25):  # whole results are the table
            data, tabs = [{k: cell(d) for k in d.sample(NAMES, d.int(1, 4))} for _ in range(d.int(1, 3))], [dict(t) for t in tabs[:1]]
            tabs[0].pop("path", None)
            tabs[0].pop("key", None)
        rounds.append({"data": data, "tabs": tabs, "update": d.bool(60)})
    return {"rounds": rounds, "how": d.choice(["yaml", "python", "kwargs", "again"]), "filename": d.choice(["out", "out.xlsx", "o\u00e9 1", "{who}", "{who}.xlsx"]), "sub": d.choice(["", "", "/deep", "/deep/er"])}


def trim(rows):
    """A workbook has no cells where nothing but empty cells follow."""
    out = []
    for row in rows:
        row = list(row)
        while row and row[-1] is None:
            row.pop()
        out.append(row)
    return [r for r in out if r]


@sub(P, "excel", gen_excel, 900, 12000, "several tabs, or several rounds into the same workbook")
def excel(case):
    from openpyxl import load_workbook

    name = case["filename"].replace("{who}", "me")
    with api.Scratch() as folder:
        url = folder + case["sub"] + "/"
        want = {}
        rounds = case["rounds"] if case["how"] != "again" else [case["rounds"][0]] * 3
        p = None
        for r in rounds:
            tables = []
            for i, tab in enumerate(r["tabs"]):
                tables.append([tab.get("tab_name", "Sheet%d" % i), [[None if c == "" else c for c in row] for row in table_of(r["data"], **{k: v for k, v in tab.items() if k != "tab_name"})]])
            if not (r["update"] and want):
                want = {}
            for t, rows in tables:
                want[t] = want[t] + rows[1:] if t in want else rows
            spec = {"format": "excel", "returner": "file", "filename": case["filename"], "url": url}
            if r["update"]:
                spec["update"] = True
            if case["how"] == "kwargs" or p is None:
                p = api.new(vars={"who": "me"})
                p.add_function(lambda _: copy.deepcopy(r["data"]), "output", "inject")
                start = '<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n'
                if case["how"] == "kwargs":
                    p.add_template(start)
                    p.add_input("zz 1\n")
                    p.parse()
                    kw = dict(spec, table=copy.deepcopy(r["tabs"]))
                    given = copy.deepcopy(kw)
                    p.result(**given)
                    eq(given, kw, "arguments given to result()")
                else:
                    body = dict(spec, table=r["tabs"])
                    if case["how"] == "yaml":
                        import yaml

                        body = "<output load='yaml'>\n%s</output>" % escape(yaml.safe_dump(body, allow_unicode=True, width=1000))
                    else:
                        body = attrs_of(body, "text")
                    p.add_template(start + body)
                    p.add_input("zz 1\n")
                    p.parse()
                    eq(p.result(), [r["data"]], "results after they were saved to a file")
                    if case["how"] != "again":
                        p = None
            else:
                p.clear_result()
                p.parse()
            path = os.path.join(url, name if name.endswith(".xlsx") else name + ".xlsx")
            ensure(os.path.isfile(path), "no workbook", path=path[len(folder):], found=os.listdir(folder))
            wb = load_workbook(path)
            got = {}
            for ws in wb.worksheets:
                got[ws.title] = trim([c.value for c in row] for row in ws.rows)
            eq(got, {t: trim(rows) for t, rows in want.items()}, "tabs of the workbook")
        ensure(len(os.listdir(os.path.dirname(path))) == 1, "other files", found=os.listdir(os.path.dirname(path)))
    return [case["how"]] if len(rounds) > 1 or len(rounds[0]["tabs"]) > 1 else None


# ------------------------------------------------------------------ jinja2, N2G


@gen.cases
def gen_jinja(d):
    data = [[{n: gen.word(d) if d.bool(60) else d.choice([o for o in ODD if "\n" not in o]) for n in ["interface", "ip", "vrf"][: d.int(1, 3)]} for _ in range(d.int(0, 4))] for _ in range(d.int(1, 3))]
    return {"data": data, "blocks": d.sample(["all", "count", "first", "cond", "literal"], d.int(1, 4)), "how": d.choice(["attr", "chain"])}


JINJA = {
    "all": "{% for one in _data_ %}\n{% for item in one %}\n    if {{ item['interface'] }} ip={{ item.ip }}!\n{% endfor %}\n{% endfor %}",
    "count": "inputs {{ _data_ | length }} records {% for one in _data_ %}{{ one | length }};{% endfor %}.",
    "first": "first <{{ _data_[0][0].interface if _data_[0] else 'none' }}>",
    "cond": "{% for one in _data_ %}\n{% for item in one if item.vrf %}\n<vrf name='{{ item.vrf | upper }}'/>\n{% endfor %}\n{% endfor %}",
    "literal": " {# nothing #} a {{ '{{ b }}' }} | c",
}


def jinja_lines(block, data):
    flat = [r for one in data for r in one]
    if block == "all":
        return ["    if %s ip=%s!" % (r["interface"], r.get("ip", "")) for r in flat]
    if block == "count":
        return ["inputs %d records %s." % (len(data), "".join("%d;" % len(o) for o in data))]
    if block == "first":
        return ["first <%s>" % (data[0][0]["interface"] if data[0] else "none")]
    if block == "cond":
        return ["<vrf name='%s'/>" % r["vrf"].upper() for r in flat if r.get("vrf")]
    return [" a {{ b }} | c"]


@sub(P, "jinja2", gen_jinja, 1500, 20000, "text has values of records")
def jinja2(case):
    data = case["data"]
    p = api.new()
    p.add_function(lambda _: copy.deepcopy(data), "output", "inject")
    extra = '<output format="json"/>' if case["how"] == "chain" else ""
    p.add_template('<group name="g">\nzz {{ zz }}\n</group>\n<output functions="inject"/>\n<output format="jinja2">\n%s\n</output>%s' % (escape("\n".join(JINJA[b] for b in case["blocks"])), extra))
    p.add_input("zz 1\n")
    p.parse()
    got = p.result()[0]
    if extra:
        got = json.loads(got)
    want = [ln for b in case["blocks"] for ln in jinja_lines(b, data)]
    ensure(isinstance(got, str), "jinja2 formatter returns text", got=got)
    eq([ln for ln in got.split("\n") if ln.strip()], want, "lines of the text made out of the results")
    return case["blocks"] if any(data) else None


@gen.cases
def gen_n2g(d):
    nodes = ["sw%d" % i for i in range(d.int(2, 6))]
    inputs = [[[d.choice(nodes), d.choice(nodes), d.text(gen.ALNUM, 1, 5)] for _ in range(d.int(0, 4))] for _ in range(d.int(1, 3))]
    return {"inputs": inputs, "module": d.choice(["yed", "yEd", "drawio", "DrawIO", None]), "path": d.choice(["cdp", "a.cdp", None]), "method": d.choice([None, "from_list", "from_dict"]), "how": d.choice(["attr", "text", "kwargs", "group"])}


@sub(P, "n2g", gen_n2g, 700, 8000, "diagram has links")
def n2g(case):
    import re

    links = [[{"source": a, "target": b, "label": t} for a, b, t in one if a != b] for one in case["inputs"]]
    method = case["method"] or "from_list"
    if method == "from_dict":
        links = [{"nodes": [], "edges": one} for one in links]
    parts = case["path"].split(".") if case["path"] else []
    data = []
    for one in links:
        for part in reversed(parts):
            one = {part: one}
        data.append(one)
    if case["how"] == "group":
        data = data[:1]
        links = links[:1]
        if parts:
            data = data[0]
    spec = {"format": "n2g"}
    for k in ("module", "path", "method"):
        if case[k]:
            spec[k] = case[k]
    got = run(data, spec, case["how"])
    ensure(isinstance(got, str), "n2g formatter returns text", got=got)
    flat = [e for one in links for e in (one["edges"] if method == "from_dict" else one)]
    nodes = {n for e in flat for n in (e["source"], e["target"])}
    if (case["module"] or "yed").lower() == "yed":
        found = len(re.findall(r"<node ", got))
    else:
        found = len(re.findall(r'vertex="1"', got))
    ensure(found == len(nodes), "number of nodes", got=found, want=len(nodes), text=got[-600:])
    for n in nodes:
        ensure(n in got, "no such node", node=n)
    for e in flat:
        ensure(e["label"] in got, "no such link", link=e)
    return ["n2g"] if flat else None
