"""P22: template variables - sources, precedence, getters, saving to results."""
import copy
import datetime
import json
import os
import re
import time

from vlib import api, gen
from vlib.core import Discard, ensure, eq, sub
from vlib.store import Store

P = "P22"
NAMES = ["va", "vb", "vc", "host", "IP", "v_1"]
WORDS = ["x", "y", "lab local", "10.0.0.1", "", "a.b", "5", "é", "*", "{{ x }}", "\\d+", "None"]


def value(d, loader, level=0):
    k = d.int(0, 9)
    if k < 4 or level > 1:
        return d.choice(WORDS)
    if k == 4:
        return d.choice([0, 5, -1, 10 ** 12])
    if k == 5:
        return d.choice([True, False, None, 1.5])
    if k < 8:
        return [value(d, loader, level + 1) for _ in range(d.int(0, 3))]
    return {d.choice(["k", "m", "a b"]): value(d, loader, level + 1) for _ in range(d.int(0, 2))}


def render(d, loader, content):
    import yaml

    if loader == "python":
        return "\n".join("%s = %r" % kv for kv in content.items())
    if loader == "json":
        return json.dumps(content, indent=d.choice([None, 2]), ensure_ascii=d.bool())
    if loader == "yaml":
        return yaml.safe_dump(content, default_flow_style=d.choice([None, False]), allow_unicode=True, sort_keys=False)
    if loader == "ini":
        return "\n".join("[%s]\n%s" % (s, "\n".join("%s%s%s" % (k, d.choice([": ", " = ", ":"]), v) for k, v in kv.items())) for s, kv in content.items())
    rows = [["key", "colA", "col b"]] + [[k] + [r[h] for h in ("colA", "col b")] for k, r in content.items()]
    return "\n".join(",".join('"%s"' % c if "," in c else c for c in r) for r in rows)


def tag(d, number):
    loader = d.choice(["python", "python", "python", "json", "yaml", "ini", "csv"])
    names = d.sample(NAMES, d.int(1, 3))
    if loader == "ini":
        content = {n: {d.choice(["1", "K", "k k"]): d.choice(["x", ".lab.local", "a = b"]) for _ in range(d.int(1, 2))} for n in names}
    elif loader == "csv":
        content = {n: {"colA": d.choice(["", "x", "a,b"]), "col b": d.choice(["y y", "5"])} for n in names}
    else:
        content = {n: value(d, loader) for n in names}
    path = d.choice([None, None, "vars", "vars.info", "vars.info*", "vars.lst*", "all.{{ host }}", "vars.info**.{{ host }}", "{{ va }}", "deep.{{ host }}.more*", "_.flat", "cfg"])
    return {"tag": d.choice(["vars", "v", "variables"]), "load": loader, "content": content, "text": render(d, loader, content), "path": path, "include": d.bool(20), "empty": d.bool(5)}


@gen.cases
def sources(d):
    tags = [tag(d, i) for i in range(d.int(1, 5))]
    kws = d.shuffle(gen.KEYWORDS)
    groups = [{"name": d.choice(["g%d" % i, "g%d*" % i, "cfg", "cfg.{{ host }}", "vars.g"]), "kw": kws.pop(), "set": d.sample(NAMES, d.int(1, 3)), "record": d.choice([None, None, None] + NAMES)} for i in range(d.int(1, 2))]
    inputs = [["%s %s" % (d.choice(groups)["kw"], d.choice(["w1", "w2", "w3"])) for _ in range(d.int(1, 4))] for _ in range(d.int(1, 3))]
    if any(g["record"] for g in groups):
        inputs = inputs[:1]  # template variables recorded over are not back in further inputs, see P13
    names = lambda: {n: value(d, "python") for n in d.sample(NAMES, d.int(1, 2))}  # noqa: E731
    return {"tags": tags, "groups": groups, "inputs": inputs, "init": names() if d.bool(40) else None, "early": names() if d.bool(25) else None, "late": names() if d.bool(40) else None}


def spoil(x):
    """Change everything that can be changed in place."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["spoiled"] = "spoiled"
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")


def known(x):
    """Values that can be the key of a path: saved as they are."""
    return isinstance(x, str) and x not in ("", "*", "_") or isinstance(x, int) and not isinstance(x, bool)


@sub(P, "sources", sources, 12000, 400000, "variables of at least two sources and some are saved to results")
def check_sources(case):
    with api.Scratch() as folder:
        t, paths = [], {}
        final = dict(case["init"] or {})
        final.update(case["early"] or {})
        for i, x in enumerate(case["tags"]):
            attrs = "".join(' %s="%s"' % (a, v) for a, v in [("load", x["load"]), ("name", x["path"])] if v and (a != "load" or v != "python" or i % 2))
            if x["empty"]:
                t.append("<%s%s>%s</%s>" % (x["tag"], attrs, "" if x["load"] in ("json", "csv") else "\n", x["tag"]))
                continue
            if x["include"]:
                f = os.path.join(folder, "vars%d" % i)
                api.write(f, x["text"])
                t.append("<%s%s include='%s'/>" % (x["tag"], attrs, f))
            else:
                t.append("<%s%s>\n%s\n</%s>" % (x["tag"], attrs, gen.xml(x["text"]), x["tag"]))
            final.update(x["content"])
            if x["path"]:
                paths.setdefault(x["path"], []).extend(x["content"])
        final.update(case["late"] or {})
        for g in case["groups"]:
            t.append('<group name="%s">\n%s {{ x%s }}\n%s\n</group>' % (g["name"], g["kw"], ' | record("%s")' % g["record"] if g["record"] else "",
                                                                      "\n".join('{{ s_%s | set("%s") }}' % (v, v) for v in g["set"])))
        init = copy.deepcopy(case["init"])
        p = api.new(**({"vars": init} if init is not None else {}))
        if case["early"]:
            p.add_vars(copy.deepcopy(case["early"]))
        p.add_template("\n".join(t))
        if case["late"]:
            p.add_vars(copy.deepcopy(case["late"]))
        eq(init, case["init"], "the dictionary given as vars")
        want = []
        for n, lines in enumerate(case["inputs"]):
            p.add_input("\n".join(["#%d" % n] + lines))
            now = copy.deepcopy(final)
            matches = []
            for g in case["groups"]:
                for ln in lines:
                    if ln.split()[0] == g["kw"]:
                        matches.append((g, ln.split()[1]))
                        if g["record"]:
                            now[g["record"]] = ln.split()[1]
            want.append(expected(case, paths, now, matches))
        p.parse(one=True)
        got = p.result()[0]
        if any(w is None for w in want):
            raise Discard()
        eq(got, want, "results", template="\n".join(t), inputs=case["inputs"], init=case["init"], early=case["early"], late=case["late"])
        spoil(got[0])
        eq(got[1:], want[1:], "results of other inputs after those of the first one were changed", template="\n".join(t), inputs=case["inputs"])
        if any(g["record"] for g in case["groups"]):
            p = api.new(**({"vars": copy.deepcopy(init)} if init is not None else {}))
            p.add_vars(copy.deepcopy(case["early"] or {}))
            p.add_template("\n".join(t))
            p.add_vars(copy.deepcopy(case["late"] or {}))
            p.add_input("\n".join(["#0"] + case["inputs"][0]))
        p.clear_result()
        p.parse(one=True)
        eq(p.result()[0], want, "results of second parse", template="\n".join(t), inputs=case["inputs"])
    n = sum(1 for k in ("init", "early", "late") if case[k]) + len([x for x in case["tags"] if not x["empty"]])
    return ["saved" if paths else "not saved"] + (["several sources"] if n > 1 else []) if n > 1 and paths else []


class Plain(Store):
    """Paths that go through anything that is not a record or a list of records are left undefined."""

    def resolve(self, items, rec):
        path = super().resolve(items, rec)
        node = self.root
        for name, _ in [p for p in path or [] if p[0] != "_"]:
            node = node.get(name, {})
            if isinstance(node, list):
                if not all(isinstance(x, dict) for x in node):
                    raise TypeError(name)
                node = node[-1] if node else {}
            if not isinstance(node, dict):
                raise TypeError(name)
        return path


def expected(case, paths, now, matches):
    if not matches:
        return {}
    st = Plain(now)
    try:
        for path in sorted(paths):
            for name in NAMES:
                if "{{ %s }}" % name in path and name in now and not known(now[name]):
                    return None
            if all("{{ %s }}" % n in path for n in paths[path]):
                return None  # nothing is left to save
            st.save(path.split("."), {n: copy.deepcopy(now[n]) for n in paths[path]})
        for g, v in matches:
            rec = {"x": v}
            rec.update({"s_" + n: copy.deepcopy(now[n]) if n in now else n for n in g["set"]})
            if "{{ host }}" in g["name"] and "host" in now and not known(now["host"]):
                return None
            st.save(g["name"].split("."), rec)
    except (AttributeError, TypeError, KeyError, IndexError):
        return None  # the path goes through a value that is not a dictionary
    return st.item()


# ------------------------------------------------------------------ getters

PROMPTS = {
    "juniper": ["{u}@{h}> ", "{u}@{h}>"], "huawei": ["<{h}>"], "ios_exec": ["{h}>"], "ios_xr": ["RP/0/4/CPU0:{h}#", "RP/0/RSP0/CPU0:{h}# "], "ios_priv": ["{h}#", "{h}# "],
    "alu": ["A:{h}>", "*A:{h}#", "*A:{h}>config# ", "B:{h}# "], "fortigate": ["{h} (ctx) #", "{h} (Default) # "],
}
ZONES = ["UTC0", "JST-9", "EST5", "IST-5:30", "XXX11"]
TIMES = {"get_time": "%H:%M:%S", "get_date": "%Y-%m-%d", "get_timestamp": "%Y-%m-%d %H:%M:%S", "get_timestamp_ms": "%Y-%m-%d %H:%M:%S.%f", "get_timestamp_iso": None, "get_time_ns": None}


@gen.cases
def getters(d):
    variables = {"g_host": "gethostname"} if d.bool(70) else {}
    for g in d.sample(["getfilename", "c_one", "c_two"] + sorted(TIMES), d.int(1, 4)):
        variables["g_" + g[-6:]] = g
    if d.bool(30):
        variables["g_again"] = d.choice(list(variables.values()))
    if d.bool(40):
        variables["plain"] = d.choice(["get host name", "hostname", "gethostname()", "GETHOSTNAME"])
    where = {k: d.choice(["tag", "tag", "tag", "init", "early", "late"]) for k in variables}
    over = {k: d.choice(["fixed", 5, "c_one"]) for k in d.sample(sorted(variables), 1)} if d.bool(30) else {}
    inputs = []
    for i in range(d.int(1, 3)):
        host = (d.choice(["ï", "þ", "ÿ", "¿", "é"]) if d.bool(8) else "") + d.text(gen.ALNUM, 1, 6) + d.choice(["", "-1", "_a", ".lab", "-core-sw01"])
        vendor = d.choice(sorted(PROMPTS) + ["none"])
        lines = ["line w%d" % d.int(1, 3) for _ in range(d.int(1, 3))]
        for _ in range(d.int(1, 2) if vendor != "none" else 0):
            lines.insert(d.int(0, len(lines)), d.choice(PROMPTS.get(vendor)).format(h=host, u=d.choice(["admin", "some.user", "u1", ""])) + d.choice(["show version", "show run int", "", "display x"]))
        if vendor in ("ios_priv", "ios_exec") and not lines[0].startswith("line") and d.bool(30):  # byte order mark
            lines[0] = d.choice(["\ufeff", "ï»¿", "þÿ"]) + lines[0]
        inputs.append({"host": (host + (" (ctx)" if "(ctx)" in "".join(lines) else " (Default)") if vendor == "fortigate" else host) if vendor != "none" else None,
                       "lines": lines, "file": d.bool(40), "name": "in%d" % i if d.bool(40) else None, "both": vendor == "fortigate" and "(ctx)" in "".join(lines) and "(Default)" in "".join(lines)})
    return {"zone": d.choice(ZONES), "vars": variables, "where": where, "over": over, "inputs": inputs, "second": d.bool(30), "path": d.choice(["vars", "vars*", "dev.{{ g_host }}"]), "group": d.choice(["g", "g*"])}


def c_one(text, name):
    return "one:%d" % text.count("line")


def c_two(text, *args, **kwargs):
    return {"two": [text.count("w1")]}


def check_time(getter, got, before, after):
    """The value got is a time between the two, in the documented format."""
    if getter == "get_time_ns":
        return isinstance(got, int) and before <= got / 1e9 + 1e-6 and got / 1e9 <= after + 1e-6
    if getter == "get_timestamp_iso":
        t = datetime.datetime.fromisoformat(got)
        return t.utcoffset() == datetime.timedelta(0) and before - 1e-3 <= t.timestamp() <= after + 1e-3
    before -= 1  # time.strftime reads another clock of the system, that is a bit behind
    t = datetime.datetime.strptime(got, TIMES[getter])
    if getter == "get_time":
        day = lambda x: time.localtime(x)[3] * 3600 + time.localtime(x)[4] * 60 + time.localtime(x)[5]  # noqa: E731
        now = t.hour * 3600 + t.minute * 60 + t.second
        return day(before) <= now <= day(after) or day(after) < day(before)
    if getter == "get_date":
        return datetime.datetime.fromtimestamp(before).date() <= t.date() <= datetime.datetime.fromtimestamp(after).date()
    if getter == "get_timestamp_ms":
        return re.search(r"\.\d{3}$", got) is not None and before - 2e-3 <= t.timestamp() <= after + 1e-3
    return int(before) <= t.timestamp() <= after


@sub(P, "getters", getters, 5000, 150000, "a getter gave values for at least one input")
def check_getters(case):
    zone = os.environ.get("TZ")
    try:
        os.environ["TZ"] = case.get("zone", "UTC0")
        time.tzset()
        return getters_case(case)
    finally:
        os.environ.pop("TZ") if zone is None else os.environ.update(TZ=zone)
        time.tzset()


def getters_case(case):
    with api.Scratch() as folder:
        by = lambda w: {k: v for k, v in case["vars"].items() if case["where"][k] == w}  # noqa: E731
        tags = ['<vars name="%s">\nmark = 1\n%s\n</vars>' % (case["path"], "\n".join("%s = %r" % kv for kv in sorted(by("tag").items())))]
        names = sorted(case["vars"])
        tags.append('<group name="%s">\nline {{ x }}\n%s\n</group>' % (case["group"], "\n".join('{{ s_%s | set("%s") }}' % (n, n) for n in names)))
        p = api.new(vars=by("init"))
        p.add_function(c_one, "variable")
        p.add_function(c_two, "variable", "c_two")
        p.add_vars(by("early"))
        if case.get("second"):  # another template, that gets same variables
            p.add_template("<group>\nline {{ x }}\n</group>", template_name="zero")
        p.add_template("\n".join(tags))
        p.add_vars(by("late"))
        p.add_vars(case["over"])
        values = dict(case["vars"], **case["over"])
        for i, x in enumerate(case["inputs"]):
            text = "\n".join(x["lines"])
            if x["file"]:
                x["path"] = os.path.join(folder, "f%d.txt" % i)
                api.write(x["path"], text)
            p.add_input(x["path"] if x["file"] else text + "\nend%d" % i, input_name=x["name"] or "Default_Input")
        before = time.time()
        p.parse(one=True)
        after = time.time()
        got = p.result()[-1]
        inputs = [x for n in [None] + ["in%d" % i for i in range(3)] for x in case["inputs"] if x["name"] == n]
        order = []
        for x in case["inputs"]:
            if x["name"] not in order:
                order.append(x["name"])
        inputs = [x for n in order for x in case["inputs"] if x["name"] == n]
        ensure(len(got) == len(inputs), "number of results", got=got)
        for x, res in zip(inputs, got):
            if x["both"]:
                continue
            text = "\n" + "\n".join(x["lines"]) + "\n"
            now = {}
            times = {}
            for n, v in values.items():
                if v == "gethostname":
                    if x["host"] is not None:
                        now[n] = x["host"]
                elif v == "getfilename":
                    now[n] = x["path"] if x["file"] else "text_data"
                elif v == "c_one":
                    now[n] = "one:%d" % text.count("line")
                elif v == "c_two":
                    now[n] = {"two": [text.count("w1")]}
                elif v in TIMES:
                    times[n] = v
                else:
                    now[n] = v
            recs = res.get("g")
            ensure(recs is not None, "no records of the group", res=res)
            recs = recs if isinstance(recs, list) else [recs]
            eq([r.pop("x") for r in recs], [ln.split()[1] for ln in x["lines"] if ln.startswith("line ")], "values of x", text=text)
            host = now.get("g_host")
            saved = {n: now[n] for n in now if case["where"][n] == "tag"}
            res.pop("g")
            for rec in recs:
                for n, g in times.items():
                    v = rec.pop("s_" + n)
                    ensure(check_time(g, v, before, after), "%s gives the time of parsing" % g, got=v, before=before, after=after)
                eq(rec, {"s_" + n: now.get(n, n) for n in names if n not in times}, "values set from getters", text=text, values=values)
            if case["path"] == "dev.{{ g_host }}":
                if host is None and "g_host" not in times:
                    eq(res, {}, "results without groups", text=text)
                    continue
                if host == "" or not isinstance(host, (str, int)):
                    continue
                ensure(list(res) == ["dev"] and list(res["dev"]) == [str(host)], "path of saved variables", res=res, host=host)
                got_saved = res["dev"][str(host)]
                saved.pop("g_host", None)
            else:
                ensure(list(res) == ["vars"], "path of saved variables", res=res)
                got_saved = res["vars"][0] if case["path"] == "vars*" else res["vars"]
            for n, g in times.items():
                if case["where"][n] == "tag":
                    ensure(check_time(g, got_saved.pop(n), before, after), "%s gives the time of parsing" % g)
            eq(got_saved, dict(saved, mark=1), "variables saved to results", text=text, values=values)
    return sorted(set(v for v in case["vars"].values()))
