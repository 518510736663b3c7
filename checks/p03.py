"""P03: results paths - static, starred, dynamic, absolute, null and anonymous names."""
import re

from vlib import api, gen, store
from vlib.core import eq, sub

P = "P03"

KEYS = ["Gi1", "lo0", "10.1.1.1", "7", "42", "a*", "b**", "c\\nd", "\\1x", "e\\g<0>", "x/y", "v.1", "Te-1/0:2", "\u00e9", "(z", "$k", "[q]", "\u00b2", "\u0663", "1\u00b3", "007"]
TVARS = {"tv": "site1", "tq": "r\\nq", "tn": "77"}


def _items(d, g, own, upper, statics, top):
    """Path items of a group name."""
    items = []
    n = d.choice([1, 1, 2, 2, 3])
    for i in range(n):
        k = d.int(0, 9)
        last = i == n - 1
        if k < 4:
            it = "s%d%s" % (g, "abc"[i]) if d.bool(75) else d.choice(statics)
        elif k < 7 and own:
            it = "{{ %s }}" % own
        elif k < 8 and upper:
            it = "{{ %s }}" % d.choice(upper)
        elif k < 9:
            it = "{{ %s }}" % d.choice(sorted(TVARS))
        else:
            it = "t%d%s" % (g, "abc"[i])
        if "{{" in it and d.bool(35):
            it = d.choice(["pre-", "n%d_" % g, ""]) + it + d.choice(["_post", "", "-%d" % g])
        if "{{" in it and d.bool(12):  # one more of them in the same item
            it += d.choice(["", "-", "/"]) + "{{ %s }}" % d.choice(sorted(TVARS))
        k = d.int(0, 9)
        if k >= 8:
            it += "**"
        elif k >= 5:
            it += "*"
        items.append(it)
        if last:
            break
    return items


@gen.cases
def paths(d):
    return make_paths(d)


def make_paths(d, n_inputs=None):
    """A template and data for it; with n_inputs lists of data and of events."""
    kws = d.shuffle(gen.KEYWORDS)
    statics = ["net", "cfg"]
    counter = [0]
    extra = {}
    pathchar = d.choice([".", ".", ".", ";", "|", "#"])

    def group(level, parent_items, upper, anon_tree):
        counter[0] += 1
        n = counter[0]
        own = d.choice(["k%d", "k%d", "k%d", "if-k%d", "k:%d", "_k%d", "k+%d", "k[%d]?"]) % n if d.bool(65) else None
        if own and d.bool(12):  # a template variable of that name is the last resort only
            extra[own] = "tv-%d" % n
        own_late = bool(own) and d.bool(12)  # key captured by an optional line
        if level == 0 and d.bool(15):
            name, items, anon_tree = None, ["_anonymous_*"], True
        else:
            kind = d.int(0, 9)
            rel = _items(d, n, own, upper, statics, level == 0)
            if level and kind == 9:
                name, items = "_", parent_items + ["_"]
                own, own_late = None, False
            elif level and kind == 8:
                name, items = pathchar.join(["_"] + rel), parent_items + ["_"] + rel
            elif kind == 7 and (level or d.bool(30)):
                if d.bool(20) and not (anon_tree and level > 1):
                    name, items, anon_tree = "/", ["_anonymous_*"], True
                elif anon_tree and "_anonymous_*" in parent_items:
                    # the docs only define absolute names below named parents
                    name, items = pathchar.join(rel), parent_items + rel
                else:
                    # a first item of its own: an absolute name that points at an ancestor of the parent's
                    # path moves the parent's record itself, which nothing defines
                    rel[0] = "abs%d%s" % (n, d.choice(["", "*", "**"]))
                    if d.bool(35) and not any(x.startswith("shared") for x in parent_items):
                        # groups of different parents save to the same place
                        rel[0] = "shared" + d.choice(["", "*", "*"])
                        rel = rel[: d.choice([1, 1, 2])]
                    elif own and d.bool(40):
                        rel[0] = "abs%d-{{ %s }}" % (n, own)
                    name, items = "/" + pathchar.join(rel), rel
            else:
                name, items = pathchar.join(rel), parent_items + rel
        toks = "%s {{ p%d }}" % (kws[-1], n) + (" {{ %s }}" % own if own and not own_late else "")
        g = {
            "n": n, "name": name, "items": items, "own": own, "late": own_late, "kw": kws.pop(),
            "start": toks, "line": kws.pop(), "tail": None, "children": [], "null": name == "_",
            "spaces": d.choice([" ", " ", " ", "", "  "]), "lines": not (own is None and name not in (None, "_") and level < 2 and d.bool(15)),
        }
        if level < 2:
            for _ in range(d.choice([0, 1, 1, 2]) if level == 0 else d.choice([0, 0, 1])):
                # keys of optional lines are not reliably in the cache for children
                up = upper + ([own] if own and not own_late else [])
                if own_late and any("{{ %s }}" % own in x for x in items):
                    break
                g["children"].append(group(level + 1, items, up, anon_tree))
            if not g["children"]:
                g["lines"] = True
            if g["children"] and g["lines"] and not g["null"] and d.bool(50):
                g["tail"], g["tail_at"] = kws.pop(), d.int(1, len(g["children"]))
        return g

    tops = [group(0, [], [], False) for _ in range(d.choice([1, 1, 2, 3]))]

    def tmpl(g):
        name = (g["name"] or "").replace("{{ ", "{{" + g["spaces"]).replace(" }}", g["spaces"] + "}}")
        out = ["<group%s>" % (' name="%s"' % gen.xml_attr(name) if g["name"] is not None else ""), g["start"]]
        out.append("%s {{ l%d }}" % (g["line"], g["n"]))
        if not g["lines"]:  # only groups in it
            del out[1:]
        if g["late"]:
            out.append("%s-key {{ %s }}" % (g["line"], g["own"]))
        for i, c in enumerate(g["children"], 1):
            out.append(tmpl(c))
            if g["tail"] and g["tail_at"] == i:
                out.append("%s {{ t%d }}" % (g["tail"], g["n"]))
        out.append("</group>")
        return "\n".join(out)

    serial = [0]

    def walk(g, text, events):
        if not g["lines"]:
            for c in d.shuffle(g["children"]) * d.int(1, 2):
                walk(c, text, events)
            return
        serial[0] += 1
        me = serial[0]
        rec = {"p%d" % g["n"]: "val%d" % serial[0]}
        key = d.choice(KEYS)
        if g["own"] and not g["late"]:
            rec[g["own"]] = key
            text.append("%s val%d %s" % (g["kw"], serial[0], key))
        else:
            text.append("%s val%d" % (g["kw"], serial[0]))
        if d.bool(40):
            rec["l%d" % g["n"]] = "l%d" % serial[0]
            text.append("%s l%d" % (g["line"], serial[0]))
        if g["late"] and d.bool(60):
            rec[g["own"]] = key
            text.append("%s-key %s" % (g["line"], key))
        events.append(["save", g["items"], rec])
        mark = len(events)
        for c in g["children"]:
            for _ in range((d.choice([1, 0, 2]) if not d.bool(2) else 13) if not c["null"] else d.int(0, 1)):
                walk(c, text, events)
        if g["tail"] and d.bool(60):
            if len(events) == mark:  # no child record in between
                rec["t%d" % g["n"]] = "t%d" % me
            else:
                events.append(["tail", g["items"], {"t%d" % g["n"]: "t%d" % me}])
            text.append("%s t%d" % (g["tail"], me))

    inputs = []
    for _ in range(n_inputs or 1):
        text, events = [], []
        for g in tops:
            for _ in range(d.choice([1, 2, 3, 1] if n_inputs is None else [1, 2, 0, 1]) if not d.bool(4) else d.int(10, 25)):
                walk(g, text, events)
        inputs.append(["\n".join(text), events])
    body = "\n".join(tmpl(g) for g in tops)
    if pathchar != ".":
        body = "<template pathchar=\"%s\">\n%s\n</template>" % (pathchar, body)
    if n_inputs is not None:
        return {"template": body, "data": [x[0] for x in inputs], "events": [x[1] for x in inputs], "key_to_int": d.bool(25), "pathchar": pathchar, "vars": {**TVARS, **extra}}
    return {"template": body, "data": inputs[0][0], "events": inputs[0][1], "key_to_int": d.bool(25),
            "vars": {**TVARS, **extra}}


@sub(P, "paths", paths, 6000, 250000, "at least two records saved and a path that is dynamic, starred, absolute, null or anonymous")
def check_paths(case):
    want = store.Store(case["vars"], case["key_to_int"])
    for kind, items, rec in case["events"]:
        getattr(want, kind)(items, rec)
    got = api.parse1(case["data"], case["template"], vars=case["vars"], dynamic_path_key_to_int=case["key_to_int"])
    eq(got, want.item(), template=case["template"], data=case["data"], key_to_int=case["key_to_int"])
    labels = set()
    for kind, items, rec in case["events"]:
        labels.add(kind)
        for it in items:
            if "{{" in it:
                labels.add("dynamic")
            if it.endswith("**"):
                labels.add("**")
            elif it == "_anonymous_*":
                labels.add("anonymous")
            elif it.endswith("*"):
                labels.add("*")
            elif it == "_":
                labels.add("null")
    if '"/' in case["template"]:
        labels.add("absolute")
    if len(case["events"]) < 2 or labels <= {"save", "tail"}:
        return None
    return sorted(labels)
