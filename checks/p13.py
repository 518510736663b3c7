"""P13: recorded variables, counters and set - values move between lines, groups and inputs exactly as recorded."""
import copy

from vlib import api, gen
from vlib.core import eq, sub

P = "P13"
LITERALS = ["text", 5, 0, True, None, ["a", "b"], {"k": ["v"]}, 1.5]


# ------------------------------------------------------------------ counters


@gen.cases
def counters(d):
    kws = d.shuffle(gen.KEYWORDS)
    init = {}
    for v in ("c_one", "c_two"):
        if d.bool(60):
            init[v] = d.choice([0, 0, 5])
    lines = []
    for i in range(d.int(1, 4)):
        cond = d.choice([None, None, ["equal", "up"], ["contains", "a"], ["isdigit", None]])
        kw = {}
        if d.bool(70):
            kw["var"] = d.choice(["c_one", "c_two"])
        if not kw or d.bool(40):
            kw["globvar"] = d.choice(["g_one", "g_two"])
        if len(kw) == 2 and d.bool(30):
            kw["globvar"] = kw["var"]
        lines.append({"kw": kws.pop(), "cond": cond, "count": kw, "group": d.int(0, 2)})
    inputs = [[[d.int(0, len(lines) - 1), d.choice(["up", "down", "a", "5", "bad"])] for _ in range(d.int(0, 7))] for _ in range(d.int(1, 3))]
    return {"init": init, "lines": lines, "inputs": inputs, "runs": d.choice([1, 1, 2]), "show": d.bool(40)}


def holds(cond, v):
    if cond is None:
        return True
    return {"equal": v == cond[1], "contains": "a" in v, "isdigit": v.isdigit()}[cond[0]]


@sub(P, "counters", counters, 3000, 100000, "a counter went up and at least one line was not counted")
def check_counters(case):
    t = ["<macro>\ndef globals_out(data):\n    data.append({k: v for k, v in _ttp_[\"global_vars\"].items()})\n</macro>", '<output macro="globals_out"/>']
    t.append("<vars name=\"counters\">\nmark = 1\n%s\n</vars>" % "\n".join("%s = %r" % kv for kv in case["init"].items()))
    for i, ln in enumerate(case["lines"]):
        cond = "" if ln["cond"] is None else " | %s" % ln["cond"][0] + ("" if ln["cond"][1] is None else "('%s')" % ln["cond"][1])
        cnt = "count(%s)" % ", ".join("%s='%s'" % kv for kv in ln["count"].items())
        t.append('<group name="g%d*">\n%s {{ v%s | %s }}\n</group>' % (i, ln["kw"], cond, cnt))
    if case.get("show"):  # counters that are not in the template as well
        t.append("<group name=\"shown*\" functions=\"set('c_one', 'n1', -1) | set('c_two', 'n2', -1)\">\nshow counters {{ k }}\n</group>")
    p = api.new(template="\n".join(t))
    want, glob = [], {}
    n = bad = 0
    for k, seq in enumerate(case["inputs"]):
        p.add_input("\n".join(["#%d" % k] + ["%s %s" % (case["lines"][i]["kw"], v) for i, v in seq] + ["show counters %d" % k] * bool(case.get("show"))))
    for run in range(case["runs"]):
        want = []
        for k, seq in enumerate(case["inputs"]):
            cnt, res = dict(case["init"]), {}
            for i, v in seq:
                ln = case["lines"][i]
                if not holds(ln["cond"], v):
                    bad += 1
                    continue
                n += 1
                res.setdefault("g%d" % i, []).append({"v": v})
                if "var" in ln["count"]:
                    cnt[ln["count"]["var"]] = cnt.get(ln["count"]["var"], 0) + 1
                if "globvar" in ln["count"]:
                    glob[ln["count"]["globvar"]] = glob.get(ln["count"]["globvar"], 0) + 1
            if case.get("show"):
                res["shown"] = [{"k": str(k), "n1": cnt.get("c_one", glob.get("c_one", -1)), "n2": cnt.get("c_two", glob.get("c_two", -1))}]
            if res:  # variables are saved with results, not on their own
                res["counters"] = dict({k: cnt[k] for k in case["init"]}, mark=1)
            want.append(res)
        p.parse(one=True)
        got = p.result()[0]
        for g, w in zip(got, want):
            if not w:  # no accepted line: saving of variables is not claimed
                g.pop("counters", None)
        eq(got, want + [glob], run=run, template="\n".join(t), inputs=case["inputs"])
        p.clear_result()
    return ["runs%d" % case["runs"]] if n and bad else None


# ------------------------------------------------------------------ match variables: record and set


@gen.cases
def recorded(d):
    names = ["V1", "V2", "V3"]
    tvars = {n: d.choice(LITERALS) for n in d.sample(names[1:], d.int(0, 2))}
    n_inputs, runs = d.choice([1, 1, 2, 3]), d.choice([1, 1, 2])
    # what a template variable recorded over by an earlier input is worth later on is not claimed
    rnames = names if n_inputs * runs == 1 else [n for n in names if n not in tvars]
    groups = []
    for i in range(d.int(2, 4)):
        k = d.int(0, 2)
        if k == 0 or i == 0:
            groups.append(["rec", d.choice(rnames), d.choice(["", "", "upper", "to_list", "to_int"])])
        elif k == 1:
            groups.append(["set", d.choice(names), d.choice(["alone", "alone", "line", "list", "macro"])])
        else:
            groups.append(["let", d.choice(names), ""])
    inputs = [[[d.int(0, len(groups) - 1), d.choice(["a", "b", "12", "x"])] for _ in range(d.int(1, 6))] for _ in range(n_inputs)]
    return {"vars": tvars, "groups": groups, "inputs": inputs, "runs": runs}


GROW = """<macro>
def grow(data):
    if isinstance(data, list):
        data.append("grown")
    elif isinstance(data, dict):
        data["grown"] = 1
    return data
</macro>"""


def worth(name, vars_, glob, fresh, used):
    if name in vars_:
        used.add("same input" if name in fresh else "template variable")
        return copy.deepcopy(vars_[name])
    if name in glob:
        used.add("earlier input")
        return copy.deepcopy(glob[name])
    return name


@sub(P, "record", recorded, 3500, 120000, "a recorded value was used by another line")
def check_recorded(case):
    t = [GROW] if any(g[2] == "macro" for g in case["groups"]) else []
    if case["vars"]:
        t.append("<vars>\n%s\n</vars>" % "\n".join("%s = %r" % kv for kv in case["vars"].items()))
    for i, (kind, name, extra) in enumerate(case["groups"]):
        if kind == "rec":
            f = (" | " + extra if extra else "") + " | record(\"%s\")" % name
            # what is done to the value later does not change the recorded value
            t.append('<group name="g%d*">\nrec%s {{ v%s%s }}\n</group>' % (i, "abcdef"[i], f, ' | append("zz")' if extra == "to_list" else ""))
        elif kind == "set":
            t.append('<group name="g%d*">\nset%s {{ n }}\n%s{{ s | set("%s")%s }}\n</group>' % (
                i, "abcdef"[i], "" if extra == "alone" else "with flag %d " % i, name, {"list": ' | to_list | append("zz")', "macro": ' | macro("grow")'}.get(extra, "")))
        else:
            t.append('<group name="g%d*">\nlet%s {{ n | let("s", "%s") }}\n</group>' % (i, "abcdef"[i], name))
    p = api.new(template="\n".join(t))
    for k, seq in enumerate(case["inputs"]):
        lines = ["#%d" % k]
        for i, v in seq:
            lines.append("%s%s %s" % (case["groups"][i][0], "abcdef"[i], v))
            if case["groups"][i][0] == "set" and case["groups"][i][2] != "alone":
                lines.append("with flag %d" % i)
        p.add_input("\n".join(lines))
    glob, used = {}, set()
    for run in range(case["runs"]):
        want = []
        for seq in case["inputs"]:
            vars_, res = copy.deepcopy(case["vars"]), {}
            fresh, late = set(), []
            for i, (kind, name, extra) in enumerate(case["groups"]):  # groups read the text one after another
                for j, v in seq:
                    if i != j:
                        continue
                    if kind == "rec":
                        val = {"": v, "upper": v.upper(), "to_list": [v], "to_int": int(v) if v.isdigit() else v}[extra]
                        vars_[name] = copy.deepcopy(val)
                        glob[name] = copy.deepcopy(val)
                        fresh.add(name)
                        res.setdefault("g%d" % i, []).append({"v": val + ["zz"] if extra == "to_list" else val})
                    elif kind == "let":
                        res.setdefault("g%d" % i, []).append({"n": v, "s": name})
                    else:
                        rec = {"n": v}
                        res.setdefault("g%d" % i, []).append(rec)
                        if extra == "alone":
                            late.append((rec, name))
                        else:
                            val = worth(name, vars_, glob, fresh, used)
                            if extra == "list":
                                val = (val if isinstance(val, list) else [val]) + ["zz"]
                            if extra == "macro" and isinstance(val, (list, dict)):
                                val = val + ["grown"] if isinstance(val, list) else dict(val, grown=1)
                            rec["s"] = val
            for rec, name in late:  # a value that stands alone is the one after all groups read the text
                rec["s"] = worth(name, vars_, glob, fresh, used)
            want.append(res)
        p.parse(one=True)
        eq(p.result()[0], want, run=run, template="\n".join(t), inputs=case["inputs"])
        p.clear_result()
    return sorted(used - {"template variable"}) or None


# ------------------------------------------------------------------ groups: record and set


@gen.cases
def grouped(d):
    return {
        "tvar": d.choice([None, None, "from vars", 0, "", False]),
        "target": d.choice([None, "vrf_name"]),
        "set_target": d.choice([None, "peer_vrf"]),
        "default": d.choice([None, "global", "x"]),
        "post": d.bool(30),
        "int": d.bool(40),
        "inputs": [[[d.choice(["VRF1", "VRF2", None, "c", "0", "7"]), [d.choice(["10.1", "10.2", "a"]) for _ in range(d.int(0, 2))]] for _ in range(d.int(1, 4))]
                   for _ in range(d.int(1, 2))],
    }


@sub(P, "groups", grouped, 2500, 80000, "a group's record got a value recorded by another group")
def check_grouped(case):
    source = case["target"] or "vrf"
    target = case["set_target"] or source
    t = []
    if case["tvar"] is not None:
        t.append("<vars>\n%s = %r\n</vars>" % (source, case["tvar"]))
    rec = "vrf" + (", " + case["target"] if case["target"] else "")
    st = source + (", " + case["set_target"] if case["set_target"] else "") + (", default='%s'" % case["default"] if case["default"] else "")
    t.append('<group name="fam*" record="%s">\nfamily {{ afi }} vrf {{ vrf%s }}\nfamily {{ afi | _start_ }}\n'
             '<group name="peers*" set="%s">\n peer {{ ip }}\n</group>\n</group>' % (rec, " | to_int" if case["int"] else "", st))
    if case["post"]:
        t.append('<group name="last*" set="%s">\nlast {{ n }}\n</group>' % st)
    p = api.new(template="\n".join(t))
    want, glob, hit = [], {}, False
    for k, fams in enumerate(case["inputs"]):
        lines = ["#%d" % k]
        vars_ = {source: case["tvar"]} if case["tvar"] is not None else {}
        out = []

        def lookup():
            if source in vars_:
                return vars_[source]
            return glob.get(source, case["default"] or source)

        for vrf, peers in fams:
            lines.append("family v4" + (" vrf " + vrf if vrf else ""))
            rec = {"afi": "v4"}
            if vrf:
                rec["vrf"] = int(vrf) if case["int"] and vrf.isdigit() else vrf
                vars_[source] = glob[source] = rec["vrf"]
            for ip in peers:
                lines.append(" peer " + ip)
                rec.setdefault("peers", []).append({"ip": ip, target: lookup()})
                hit = hit or source in glob
            out.append(rec)
        res = {"fam": out}
        if case["post"]:
            lines.append("last one")
            res["last"] = [{"n": "one", target: lookup()}]
        want.append(res)
        p.add_input("\n".join(lines))
    p.parse(one=True)
    eq(p.result()[0], want, template="\n".join(t), inputs=case["inputs"])
    return ["target" if case["target"] else "same name"] if hit else None
