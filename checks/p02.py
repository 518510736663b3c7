"""P02: hierarchy - every child record sits inside the parent record under which its text occurs, in order."""
from vlib import api, gen, tree
from vlib.core import eq, sub

P = "P02"


@gen.cases
def hierarchy(d):
    tops = tree.make_tree(d)
    text, want = [], {}
    insts = {}
    order = []
    budget = [d.int(6, 16)]
    for i, g in enumerate(tops):
        order += [i] * d.int(0 if i else 1, 3)
    order = d.shuffle(order)
    for i in order:
        if d.bool(15):
            text.append(gen.noise(d))
        inst = tree.instance(d, tops[i], budget)
        text += inst["text"]
        insts.setdefault(i, []).append(inst)
    for i, g in enumerate(tops):
        if i in insts:
            tree.put(want, g["name"], [tree.expected(g, x) for x in insts[i]])
    all_ = [x for xs in insts.values() for x in xs]
    return {
        "template": "\n".join(tree.template(g) for g in tops),
        "data": "\n".join(text),
        "want": want,
        "records": sum(tree.size(x) for x in all_),
        "depth": max(tree.inst_depth(x) for x in all_),
    }


@sub(P, "hierarchy", hierarchy, 5000, 200000, "at least two records, with at least one nested in another")
def check_hierarchy(case):
    got = api.parse1(case["data"], case["template"])
    eq(got, case["want"], template=case["template"], data=case["data"])
    if case["depth"] < 2:
        return None
    return ["depth=%d" % case["depth"], "records=%s" % min(case["records"], 8)]


@gen.cases
def layout(d):
    """The same template laid out differently."""
    base = hierarchy.fn(d)
    alias = d.choice(["group", "g", "grp"])
    out, kinds, level = [], set(), 0
    for ln in base["template"].split("\n"):
        tag = ln.startswith("<group") or ln == "</group>"
        if tag:
            if ln == "</group>":
                level -= 1
            if level == 0 and alias != "group":
                ln = ln.replace("group", alias, 1)
                kinds.add("alias")
            if ln.startswith("<"):
                level += ln.startswith("</") is False
            if d.bool(30):
                ln = d.text(" \t", 1, 4) + ln
                kinds.add("tag indent")
            if d.bool(30):
                ln = ln.replace(">", d.choice([" >", "  >"]), 1) if not ln.strip().startswith("</") else ln
            # a tag that directly follows another tag
            if out and out[-1].rstrip().endswith(">") and not out[-1].rstrip().endswith("}}") and d.bool(40) \
                    and out[-1].lstrip().startswith("<"):
                out[-1] = out[-1].rstrip() + d.choice(["", " "]) + ln.strip()
                kinds.add("joined tags")
                continue
        elif d.bool(20):
            ln += d.text(" \t", 1, 3)
            kinds.add("trailing blanks")
        for _ in range(d.choice([0, 0, 0, 1, 2])):
            out.append(d.choice(["", "  ", "## comment", "  ## interface {{ nothing }}", "##", "\t## {{ x | _start_ }}"]))
            kinds.add("comments")
        out.append(ln)
    text = "\n".join(out)
    if d.bool(40):
        text = "<template>%s</template>" % ("\n" + text + "\n" if d.bool(60) else text)
        kinds.add("template tag")
    if d.bool(30):
        text = d.choice(["\n", "\n\n", "  \n"]) + text + d.choice(["\n", "\n\n"])
    return dict(base, template2=text, kinds=sorted(kinds))


@sub(P, "layout", layout, 2500, 60000, "results are not empty and the layout differs by comments, tags or blanks")
def check_layout(case):
    eq(api.parse1(case["data"], case["template2"]), case["want"], template=case["template2"], data=case["data"])
    return case["kinds"] if case["want"] else None
