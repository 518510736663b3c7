"""P14: group filters - a record is in the results exactly when all conditions of its group hold."""
from vlib import api, gen, grp
from vlib.core import eq, sub

P = "P14"


@gen.cases
def flat(d):
    fields = grp.make_fields(d)
    chain = [grp.make_filter(d, fields) for _ in range(d.choice([1, 1, 2, 2, 3]))]
    attrs, tvars = grp.render(d, chain)
    return {"fields": fields, "chain": chain, "attrs": attrs, "vars": tvars, "path": d.choice(["g*", "g*", "a.g*", "g", None]),
            "inputs": [[grp.make_record(d, fields) for _ in range(d.int(2, 8))] for _ in range(d.choice([1, 1, 2]))]}


def head(case):
    v = dict(grp.TVARS, **grp.SCHEMAS)
    v.update(case["vars"])
    return "<vars>\n%s\n</vars>\n<macro>%s</macro>\n" % ("\n".join("%s = %r" % kv for kv in v.items()), grp.MACROS)


def group(case, inner="", indent=""):
    name = "" if case["path"] is None else ' name="%s"' % case["path"]
    f = case["fields"]
    return "<group%s%s>\n%s\n%s</group>" % (name, gen_attr(case["attrs"]), "\n".join([grp.field_template(f[0], "")] + [grp.field_template(x) for x in f[1:]]), inner)


def gen_attr(text):
    return text.replace("&", "&amp;").replace("<", "&lt;")


def text_of(fields, recs, indent=""):
    out = []
    for rec in recs:
        for i, v in rec:
            out.append("%s%s%s %s" % (indent, " " if i else "", fields[i]["kw"], v))
    return "\n".join(out)


def wrap(path, items):
    if path is None:
        return items
    res = items if path.endswith("*") or len(items) > 1 else items[0] if items else {}
    for part in reversed(path.rstrip("*").split(".")):
        res = {part: res}
    return res


@sub(P, "conditions", flat, 5000, 200000, "records of both fates: kept and dropped")
def check_flat(case):
    t = head(case) + group(case)
    scope = grp.Scope(dict(grp.TVARS, **grp.SCHEMAS, **case["vars"]))
    want, kept, dropped = [], 0, 0
    dflt = grp.defaults(case["fields"])
    for recs in case["inputs"]:
        scope.new_input()
        items = []
        for rec in recs:
            try:
                items.append(grp.run(case["chain"], grp.values(case["fields"], rec), dflt, scope, []))
                kept += 1
            except grp.Rejected:
                dropped += 1
        want.append((wrap(case["path"], items) if items else {}))
    if case["path"] is None:
        # results of groups without name
        want = [w[0] if isinstance(w, list) and len(w) == 1 else w for w in want]
    got = api.parse(["#%d\n" % i + text_of(case["fields"], r) for i, r in enumerate(case["inputs"])], t)[0]
    if case["path"] is None:
        got = [g[0] if isinstance(g, list) and len(g) == 1 else g for g in got]
        want = [w or {} for w in want]
        got = [g or {} for g in got]
    eq(grp.normal(got), want, template=t, data=case["inputs"])
    return [f[0] for f in case["chain"]] if kept and dropped else None


@gen.cases
def nested(d):
    pf = grp.make_fields(d, kinds=["f1", "f2"])
    cf = grp.make_fields(d, kinds=["f4", "f1"])
    used = {f["kw"] for f in pf}
    for i, f in enumerate(cf):
        f["kw"] = next(k for k in gen.KEYWORDS[i * 7:] + gen.KEYWORDS if k not in used)
        used.add(f["kw"])
    pchain = [grp.make_filter(d, pf)] if d.bool(75) else []
    cchain = [grp.make_filter(d, cf)] if d.bool(60) or not pchain else []
    pa, pv = grp.render(d, pchain)
    ca, cv = grp.render(d, cchain)
    if pv and cv:
        ca = ca.replace("the_chain", "other_chain")
        cv = {"other_chain": cv["the_chain"]}
    recs = []
    for _ in range(d.int(2, 5)):
        recs.append([grp.make_record(d, pf), [grp.make_record(d, cf) for _ in range(d.int(0, 3))]])
    # a line of the parent after its children, conditions look at what came before it
    tail = not any(f[0] == "cerberus" and f[2].get("allow_unknown") is False for f in pchain) and d.bool(50)
    tails = [d.choice([None, "t%d" % i]) if tail else None for i in range(len(recs))]
    return {"tailjoin": d.bool(30), "tails": tails, "pf": pf, "cf": cf, "pchain": pchain, "cchain": cchain, "pattrs": pa, "cattrs": ca, "vars": dict(pv, **cv), "recs": recs,
            "cname": d.choice(["subs*", "subs*", "in.subs*"]), "path": d.choice(["g*", "a.g*", "g"])}


@sub(P, "nested", nested, 4000, 150000, "a dropped parent with children or a dropped child")
def check_nested(case):
    inner = group({"path": case["cname"], "fields": case["cf"], "attrs": case["cattrs"]})
    inner = "\n".join(" " + x if "group" not in x else x for x in inner.splitlines()) + "\n"
    if any(case.get("tails", [])):
        inner += " closing {{ tl%s }}\n" % (" | joinmatches(\";\")" if case.get("tailjoin") else "")
    t = head(case) + group({"path": case["path"], "fields": case["pf"], "attrs": case["pattrs"]}, inner)
    scope = grp.Scope(dict(grp.TVARS, **grp.SCHEMAS, **case["vars"]))
    items, labels, data = [], set(), []
    for (prec, crecs), tail in zip(case["recs"], case.get("tails") or [None] * len(case["recs"])):
        data.append(text_of(case["pf"], [prec]))
        data.append(text_of(case["cf"], crecs, " "))
        if tail:
            data.append(" closing " + tail)
            if case.get("tailjoin"):
                data.append(" closing " + tail)
                tail += ";" + tail
        try:
            item = grp.run(case["pchain"], grp.values(case["pf"], prec), grp.defaults(case["pf"]), scope, [])
        except grp.Rejected:
            if crecs:
                labels.add("children of dropped parent")
            continue
        kids = []
        for c in crecs:
            try:
                kids.append(grp.run(case["cchain"], grp.values(case["cf"], c), grp.defaults(case["cf"]), scope, []))
            except grp.Rejected:
                labels.add("dropped child")
        if kids:
            item.update(wrap(case["cname"], kids))
        if tail:
            item["tl"] = tail
        items.append(item)
    want = wrap(case["path"], items) if items else {}
    got = api.parse1("\n".join(x for x in data if x), t)
    eq(grp.normal(got), want, template=t, data="\n".join(data))
    return sorted(labels)
