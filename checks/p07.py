"""P07: defaults - every record has every variable that has a default; values found in the text always win."""
import copy

from vlib import api, gen
from vlib.core import ensure, eq, sub

P = "P07"

# (template text, value)
DEFAULTS = [("\"Undefined\"", "Undefined"), ("\"\"", ""), ("None", None), ("0", 0), ("True", True), ("False", False),
            ("[]", []), ("[1, \"a\"]", [1, "a"]), ("{\"k\": \"v\"}", {"k": "v"}), ("{}", {}), (None, "None"),
            ("1.5", 1.5), ("\"two words\"", "two words")]
TEMPLATE_VARS = {"str_default": "from variable", "dict_default": {"dk": "dv", "deep": {"a": [1]}}}


@gen.cases
def defaults(d):
    kws = d.shuffle(gen.KEYWORDS)
    used = set()
    groups = []
    for gi in range(d.choice([1, 1, 2])):
        star = d.bool(50)
        attr = d.choice([None, None, None, "group wide", "str_default", "dict_default"])
        lines, defs = [], {}
        for j in range(d.int(1, 5)):
            var = gen.var_name(d, used)
            di = d.int(0, len(DEFAULTS) - 1) if d.bool(45) else None
            join = j > 0 and d.bool(15)
            suf = ""
            if di is not None:
                suf = " | default" + ("(%s)" % DEFAULTS[di][0] if DEFAULTS[di][0] is not None else "")
                defs[var] = DEFAULTS[di][1]
            elif attr == "group wide":
                defs[var] = "group wide"
            elif attr == "str_default":
                defs[var] = "from variable"
            if join:
                suf += " | joinmatches(\",\")"
            lines.append({"kw": kws.pop(), "var": var, "suf": suf, "join": join, "start": j > 0 and d.bool(10)})
            if lines[-1]["start"]:
                lines[-1]["suf"] += " | _start_"
                lines[-1]["join"] = False
                lines[-1]["suf"] = lines[-1]["suf"].replace(" | joinmatches(\",\")", "")
        for x in [x for x in lines if not x["join"] and not x["start"]]:
            if d.bool(15):  # one more line with the same variable
                di = d.int(0, len(DEFAULTS) - 1) if d.bool(35) else None
                lines.append({"kw": kws.pop(), "var": x["var"], "join": False, "start": False,
                              "suf": "" if di is None else " | default" + ("(%s)" % DEFAULTS[di][0] if DEFAULTS[di][0] is not None else "")})
                if di is not None:
                    defs[x["var"]] = DEFAULTS[di][1]
        for x in lines:  # found values can be 0 as well as text
            x["int"] = not x["join"] and d.bool(20)
            if x["int"]:
                x["suf"] = " | to_int" + x["suf"] if d.bool(50) or x["start"] else x["suf"] + " | to_int"
        uncond = None
        if d.bool(20):
            uncond = gen.var_name(d, used)
            defs[uncond] = "always"
        child = None
        if d.bool(35):
            cv, cs = gen.var_name(d, used), gen.var_name(d, used)
            cdi = d.int(0, len(DEFAULTS) - 1)
            child = {"kw": kws.pop(), "kw2": kws.pop(), "start": cs, "var": cv, "def": cdi}
        if attr == "dict_default":
            defs.update(copy.deepcopy(TEMPLATE_VARS["dict_default"]))
        groups.append({"name": "g%d" % gi, "star": star, "attr": attr, "lines": lines, "defs": defs, "uncond": uncond,
                       "child": child})
    template = []
    for g in groups:
        template.append("<group name=\"%s%s\"%s>" % (g["name"], "*" if g["star"] else "",
                                                   " default=\"%s\"" % g["attr"] if g["attr"] else ""))
        for x in g["lines"]:
            template.append("%s {{ %s%s }}" % (x["kw"], x["var"], gen.xml(x["suf"])))
        if g["uncond"]:
            template.append("{{ %s | set(\"always\") }}" % g["uncond"])
        if g["child"]:
            c = g["child"]
            dt = DEFAULTS[c["def"]][0]
            template += ["<group name=\"c*\">", "%s {{ %s }}" % (c["kw"], c["start"]),
                         "%s {{ %s | default%s }}" % (c["kw2"], c["var"], "(%s)" % dt if dt is not None else ""), "</group>"]
        template.append("</group>")
    inputs = []
    for _ in range(d.choice([1, 1, 2])):
        text = []
        for g in groups:
            for _ in range(d.choice([0, 1, 1, 2, 3])):
                starts = [x for i, x in enumerate(g["lines"]) if i == 0 or x["start"]]
                s = d.choice(starts)
                text.append([g["name"], "start", s["kw"], s["var"], value(d, s)])
                for _ in range(d.int(0, 4)):
                    rest = [x for i, x in enumerate(g["lines"]) if i and not x["start"]]
                    k = d.int(0, 9)
                    if k < 6 and rest:
                        x = d.choice(rest)
                        text.append([g["name"], "join" if x["join"] else "add", x["kw"], x["var"], value(d, x)])
                    elif k < 8 and g["child"]:
                        text.append([g["name"], "cstart", g["child"]["kw"], g["child"]["start"], gen.word(d)])
                        if d.bool(50):
                            text.append([g["name"], "cadd", g["child"]["kw2"], g["child"]["var"], gen.word(d)])
                    else:
                        text.append([None, "noise", "zz", "", "noise"])
        inputs.append(text)
    return {"groups": groups, "template": "\n".join(template), "inputs": inputs}


def value(d, line):
    return d.choice(["0", "0", "12"]) if line["int"] and d.bool(70) else gen.word(d)


def number(text):
    try:
        return int(text)
    except ValueError:
        return text


def model(case, text):
    out = {}
    stats = {"defaulted": 0, "empty": 0}
    for g in case["groups"]:
        recs, seen = [], set()
        ints = {x["kw"] for x in g["lines"] if x["int"]}
        for gname, kind, kw, var, val in text:
            if gname != g["name"]:
                continue
            val = number(val) if kw in ints else val
            if kind == "start":
                recs.append({var: val})
                inchild, seen = False, {var}
            elif kind in ("add", "join"):
                rec = recs[-1]
                if inchild:
                    seen = set()
                if kind == "join":
                    rec[var] = rec[var] + "," + val if var in rec else val
                elif var not in seen:
                    rec[var] = val
                    seen.add(var)
                inchild = False
            elif kind == "cstart":
                recs[-1].setdefault("c", []).append({var: val})
                inchild = True
                cseen = False
            elif kind == "cadd":
                recs[-1]["c"][-1].setdefault(var, val)
        for r in recs:
            for k, v in g["defs"].items():
                if k not in r:
                    r[k] = copy.deepcopy(v)
                    stats["defaulted"] += 1
            for c in r.get("c", []):
                c.setdefault(g["child"]["var"], copy.deepcopy(DEFAULTS[g["child"]["def"]][1]))
        if not recs:
            # a group without matches appears when (one of) its start variables has a default
            starts = [x["var"] for i, x in enumerate(g["lines"]) if i == 0 or x["start"]]
            if any(v in g["defs"] for v in starts):
                recs = [copy.deepcopy(g["defs"])]
                stats["empty"] += 1
        if recs:
            out[g["name"]] = recs if g["star"] or len(recs) > 1 else recs[0]
    return out, stats


@sub(P, "defaults", defaults, 5000, 150000, "at least one record was completed by a default value")
def check_defaults(case):
    want, n = [], 0
    for text in case["inputs"]:
        w, stats = model(case, text)
        want.append(w)
        n += stats["defaulted"] + stats["empty"]
    data = ["\n".join("%s %s" % (x[2], x[4]) for x in text) + "\n%d" % i for i, text in enumerate(case["inputs"])]
    r = api.parse(data, case["template"], vars=copy.deepcopy(TEMPLATE_VARS))
    eq(r, [want], template=case["template"], data=data)
    # records are separate objects: changing one in place changes nothing else
    seen = {}
    for rec in walk(r):
        ensure(id(rec) not in seen, "one and the same object occurs twice in the results", results=r, template=case["template"])
        seen[id(rec)] = rec
    return ["inputs=%d" % len(data)] if n else None


def walk(x):
    if isinstance(x, (list, dict)):
        yield x
        for y in x.values() if isinstance(x, dict) else x:
            yield from walk(y)
