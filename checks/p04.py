"""P04: group boundaries - start, alternative starts, end, table method, failed starts, shared lines."""
from vlib import api, gen
from vlib.core import eq, sub

P = "P04"
MARKS = [" {{ _start_ }}"] * 4 + [" {{ _start_ | _exact_ }}", " {{ _start_ | _exact_space_ }}"]


@gen.cases
def boundaries(d):
    kws = d.shuffle(gen.KEYWORDS)
    groups = []

    def group(level, parent):
        gi = len(groups)
        g = {"i": gi, "parent": parent, "name": "g%d%s" % (gi, "*" if d.bool(60) else ""), "lines": [], "children": [],
             "table": d.bool(15), "box": d.bool(12)}
        twins = [x for x in groups if x["parent"] == parent and not x["box"]]
        if twins and not g["box"] and d.bool(45):  # groups of the same place in results
            g["name"] = d.choice(twins)["name"]
        groups.append(g)
        ind = " " * (level if d.bool(70) else 0)
        n_norm = d.int(0, 3)
        # first line
        kind = d.int(0, 5)
        if kind == 0:  # a record opened by a bare marker needs a line to fill it, see DESIGN.md
            g["table"], n_norm = False, max(1, n_norm)
        kw = kws.pop()
        if kind == 0:
            g["lines"].append({"kind": "startempty", "t": ind + kw + d.choice(MARKS), "kw": ind + kw, "var": None})
        elif kind == 1:
            g["lines"].append({"kind": "start", "t": '%s%s {{ s%d | contains("ok")' % (ind, kw, gi) + d.choice([" }}", " }}", " | _start_ }}", " }} {{ _start_ }}"]), "kw": ind + kw,
                               "var": "s%d" % gi, "cond": True})
        else:
            g["lines"].append({"kind": "start", "t": d.choice(["%s%s {{ s%d }}", "%s%s {{ s%d }}", "%s%s {{ s%d }} {{ _start_ }}"]) % (ind, kw, gi), "kw": ind + kw, "var": "s%d" % gi})
        for j in range(n_norm):
            kw = kws.pop()
            v = "n%d%s" % (gi, "abc"[j])
            k = d.int(0, 9) if j else 0
            if g["table"]:
                g["lines"].append({"kind": "start", "t": "%s%s {{ %s }}" % (ind, kw, v), "kw": ind + kw, "var": v})
            elif k == 9:
                g["lines"].append({"kind": "start", "t": d.choice(["%s%s {{ %s | _start_ }}", "%s%s {{ %s }} {{ _start_ }}"]) % (ind, kw, v), "kw": ind + kw, "var": v})
            elif k == 8:  # the first optional line is always a plain one
                g["lines"].append({"kind": "startempty", "t": ind + kw + d.choice(MARKS), "kw": ind + kw, "var": None})
            elif j and d.bool(25):
                g["lines"].append({"kind": "add", "t": '%s%s {{ %s | joinmatches(",") }}' % (ind, kw, v), "kw": ind + kw, "var": v, "join": True})
            elif j and d.bool(15):
                g["lines"].append({"kind": "add", "t": '%s%s {{ %s | contains("ok") }}' % (ind, kw, v), "kw": ind + kw, "var": v, "cond": True})
            else:
                g["lines"].append({"kind": "add", "t": "%s%s {{ %s }}" % (ind, kw, v), "kw": ind + kw, "var": v})
        for _ in range(d.choice([0, 1, 1, 2])):
            kw = kws.pop()
            if d.bool(25):
                g["lines"].append({"kind": "end", "t": '%s%s {{ e%d | contains("ok")' % (ind, kw, gi) + d.choice([" }} {{ _end_ }}", " | _end_ }}"]), "kw": ind + kw,
                                   "var": "e%d" % gi, "cond": True})
            elif d.bool(30):
                g["lines"].append({"kind": "end", "t": "%s%s {{ e%d | _end_ }}" % (ind, kw, gi), "kw": ind + kw, "var": "e%d" % gi})
            else:
                g["lines"].append({"kind": "end", "t": "%s%s {{ _end_ }}" % (ind, kw), "kw": ind + kw, "var": None})
        if level < 2 and len(groups) < 6:
            for _ in range(d.choice([0, 1, 1, 2]) if level == 0 else d.choice([0, 0, 1])):
                if len(groups) < 6:
                    g["children"].append(group(level + 1, gi))
        return gi

    for _ in range(d.choice([1, 1, 2])):
        group(0, None)

    def tmpl(gi):
        g = groups[gi]
        out = ['<group name="%s"%s>' % (g["name"], ' method="table"' if g["table"] else "")]
        kids = [tmpl(c) for c in g["children"]]
        cut = len(g["lines"])
        out = out + [x["t"] for x in g["lines"][:cut]] + kids + ["</group>"]
        if g["box"]:  # a group that has nothing but the group in it
            out = ['<group name="box%d">' % gi] + out + ["</group>"]
        return "\n".join(out)

    menu = [(g["i"], j) for g in groups for j in range(len(g["lines"]))]
    starts = [(g["i"], j) for g in groups for j, x in enumerate(g["lines"]) if x["kind"].startswith("start")]
    text, events = [], []
    model = Model(groups)
    serial = 0
    pre = [gen.noise(d) for _ in range(d.choice([0, 0, 1, 3]))]
    for _ in range(d.int(1, 22)):
        if d.bool(10):
            text.append(gen.noise(d))
            continue
        gi, j = d.choice(starts if d.bool(40) else menu)
        if model.undefined(gi, j):
            continue
        todo = [j]
        if groups[gi]["lines"][j]["kind"] == "startempty":
            todo.append(next(n for n, x in enumerate(groups[gi]["lines"]) if x["kind"] == "add"))
        for j in todo:
            x = groups[gi]["lines"][j]
            serial += 1
            val = "w%d" % serial
            if x.get("cond") and d.bool(60):
                val += "ok"
            text.append(x["kw"] + (" " + val if x["var"] else "") + (d.text(" \t", 0, 2) if d.bool(20) else ""))
            events.append([gi, j, val])
            model.step(gi, j, val)
    return {
        "groups": groups,
        "template": "\n".join(tmpl(g["i"]) for g in groups if g["parent"] is None),
        "data": "\n".join(pre + text),
        "events": events,
    }


class Model:
    """Line by line: which record every line of the text belongs to."""

    def __init__(self, groups):
        self.groups = groups
        self.root = {}
        self.tops = {}
        for g in groups:
            self.tops[g["i"]] = g["i"] if g["parent"] is None else self.tops[g["parent"]]
        # per top group: chain of [group, record] being filled, groups alive in it, groups closed
        self.state = {t: {"open": [], "alive": set(), "closed": set(), "seen": set()} for t in set(self.tops.values())}

    def below(self, gi):
        out = set()
        for g in self.groups:
            if g["parent"] == gi or g["parent"] in out:
                out.add(g["i"])
        return out

    def undefined(self, gi, j):
        """A nested group starting after the text went back to a line of its grandparent: nothing defines it."""
        st, parent = self.state[self.tops[gi]], self.groups[gi]["parent"]
        return (self.groups[gi]["lines"][j]["kind"].startswith("start") and parent is not None
                and parent in st["alive"] and parent not in st["closed"]
                and parent not in [i for i, _ in st["open"]])

    def step(self, gi, j, val):
        g, x, st = self.groups[gi], self.groups[gi]["lines"][j], self.state[self.tops[gi]]
        chain = [i for i, _ in st["open"]]
        if x["kind"].startswith("start"):
            if g["parent"] is not None and (g["parent"] not in chain or g["parent"] in st["closed"]):
                return
            if x.get("cond") and "ok" not in val:
                st["closed"] |= {gi} | self.below(gi)
                return
            st["closed"].discard(gi)
            st["alive"].add(gi)
            st["alive"] -= self.below(gi)
            while st["open"] and st["open"][-1][0] != g["parent"]:
                st["open"].pop()
            rec = {x["var"]: val} if x["var"] else {}
            holder = st["open"][-1][1] if st["open"] else self.root
            st["open"].append((gi, rec))
            st["seen"] = set(rec)
            holder.setdefault("\0" + g["name"], []).append((gi, rec))
        elif x.get("cond") and "ok" not in val:
            pass  # the line is rejected
        elif x["kind"] == "end":
            if gi in st["alive"]:
                st["closed"] |= {gi} | self.below(gi)
        elif gi in chain and gi not in st["closed"]:
            if chain[-1] != gi:  # back from a child: later values replace earlier ones
                while st["open"][-1][0] != gi:
                    st["open"].pop()
                st["seen"] = set()
            if x.get("join"):
                rec = st["open"][-1][1]
                rec[x["var"]] = rec[x["var"]] + "," + val if x["var"] in rec else val
            elif x["var"] not in st["seen"]:  # otherwise the first value stays
                st["open"][-1][1][x["var"]] = val
                st["seen"].add(x["var"])


def top_of(groups, gi):
    while groups[gi]["parent"] is not None:
        gi = groups[gi]["parent"]
    return gi


def tidy(groups, rec):
    out = {k: v for k, v in rec.items() if not k.startswith("\0")}
    for k, items in rec.items():
        if k.startswith("\0"):
            g = groups[items[0][0]]
            # text is matched with one top group after another
            items = [tidy(groups, x) for _, x in sorted(items, key=lambda i: top_of(groups, i[0]))]
            name = g["name"].rstrip("*")
            items = items if g["name"].endswith("*") or len(items) > 1 else items[0]
            if g.get("box"):
                out["box%d" % g["i"]] = {name: items}
            else:
                out[name] = items
    return out


@sub(P, "boundaries", boundaries, 5000, 200000, "at least one record expected")
def check_boundaries(case):
    model = Model(case["groups"])
    for gi, j, val in case["events"]:
        model.step(gi, j, val)
    want = tidy(case["groups"], model.root)
    got = api.parse1(case["data"], case["template"])
    eq(got, want, template=case["template"], data=case["data"])
    return ["records"] if want else None


@gen.cases
def shared(d):
    """Groups with one and the same start line told apart by conditions, and the same ordinary lines in all of them."""
    kws = d.sample(gen.KEYWORDS, 6)
    n = d.int(2, 3)
    marks = d.sample("xyzq", n)
    more = {i: d.choice(["", "", "k", "m"][: 3 if i % 2 else 4]) for i in range(n)}  # another start line of the same words
    nested = d.bool(60)
    tmpl = ["<group name=\"top*\">", "%s {{ name }}" % kws[0]] if nested else []
    startkind = d.choice(["contains", "contains", "re"])
    for i in range(n):
        cond = "contains(\"%s\")" % marks[i] if startkind == "contains" else "re(\"[0-9]*%s\\\\S*\")" % marks[i]
        tmpl += ["<group name=\"c%d*\">" % i, " %s {{ id%d | %s }}" % (kws[1], i, cond), "  %s {{ desc }}" % kws[2],
                 "  %s {{ own%d }}" % (kws[3] + "abc"[i], i)]
        if more[i] in [more[x] for x in range(i)]:
            more[i] = ""
        if more[i]:
            cond = "contains(\"%s\")" % more[i] if startkind == "contains" else "re(\"[0-9]*%s\\S*\")" % more[i]
            tmpl.insert(len(tmpl) - d.choice([1, 2, 2]), " %s {{ more%d | %s | _start_ }}" % (kws[1], i, cond))
        if d.bool(30):
            tmpl.append(" %s {{ _end_ }}" % kws[4])
            ends = True
        else:
            ends = False
        tmpl.append("</group>")
        if i == 0:
            endset = set()
        if ends:
            endset.add(i)
    other = d.choice([None, "all", "w"]) if nested else None  # an ordinary line of the parent with the words of the start line
    if nested:
        if other:
            tmpl.insert(2, " %s {{ other%s | joinmatches(\",\") }}" % (kws[1], " | contains(\"w\")" if other == "w" else ""))
        tmpl.append("</group>")
    events, text = [], []
    for i in range(d.int(4, 16)):
        k = d.int(0, 11) if i else 0
        num = len(events)
        if k < 2 and nested:
            events.append(["top", "n%d" % num])
            text.append("%s n%d" % (kws[0], num))
        elif k < 6:
            i = d.int(0, n)
            second = i < n and more[i] and d.bool(50)
            v = "%d" % num + (more[i] if second else marks[i] if i < n else d.choice("wwv")) + d.text("ab", 0, 2)
            events.append(["start", i, v, "more" if second else "id"])
            text.append(" %s %s" % (kws[1], v))
        elif k < 9:
            events.append(["desc", "d%d" % num])
            text.append("  %s d%d" % (kws[2], num))
        elif k < 11:
            i = d.int(0, n - 1)
            events.append(["own", i, "o%d" % num])
            text.append("  %s o%d" % (kws[3] + "abc"[i], num))
        elif endset:
            events.append(["end"])
            text.append(" " + kws[4])
    return {"template": "\n".join(tmpl), "data": "\n".join(text), "events": events, "n": n, "nested": nested,
            "ends": sorted(endset), "kind": startkind, "other": other}


@sub(P, "shared", shared, 3000, 100000, "records of at least two groups that share their start line are expected")
def check_shared(case):
    root = {}
    starts = set()
    for lane in [list(range(case["n"]))] if case["nested"] else [[i] for i in range(case["n"])]:
        # nested groups take turns, top groups read the text independently of each other
        top = None if case["nested"] else root
        cur = None  # (group, record) being filled
        for e in case["events"]:
            if e[0] == "top":
                top, cur = {"name": e[1]}, None
                root.setdefault("top", []).append(top)
            elif e[0] == "start" and top is not None:
                if e[1] in lane:
                    cur = (e[1], {"%s%d" % (e[3] if len(e) > 3 else "id", e[1]): e[2]})
                    starts.add(e[1])
                    top.setdefault("c%d" % e[1], []).append(cur[1])
                    continue
                if case["kind"] == "contains":  # a start line of the groups that fails all their conditions
                    cur = None
                if case.get("other") == "all" or case.get("other") == "w" and "w" in e[2]:  # a line of the parent
                    cur = None
                    top["other"] = top["other"] + "," + e[2] if "other" in top else e[2]
            elif e[0] == "desc" and cur:
                cur[1].setdefault("desc", e[1])
            elif e[0] == "own" and cur and cur[0] == e[1]:
                cur[1].setdefault("own%d" % e[1], e[2])
            elif e[0] == "end" and cur and cur[0] in case["ends"]:
                cur = None
    got = api.parse1(case["data"], case["template"])
    eq(got, root, template=case["template"], data=case["data"])
    return ["nested" if case["nested"] else "top", case["kind"]] if len(starts) > 1 else None
