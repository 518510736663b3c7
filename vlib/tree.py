"""Random group hierarchies: template text, conforming data and the results a plain tree walk expects."""
from vlib import gen


def make_tree(d, depth=3, width=3, star_pct=30, dotted_pct=20, max_groups=7):
    """Group spec: {name, lines: [start, ...], tail: [line...], children: [...]} with unique keywords."""
    kws = d.shuffle(gen.KEYWORDS)
    used = set()
    count = [0]

    def line(indent):
        return gen.line(d, kws.pop(), used, indent, min_vars=1, max_vars=2, max_lits=1)

    def group(level, top):
        count[0] += 1
        n = count[0]
        indent = " " * (level * d.int(0, 2)) if d.bool(80) else "\t" * level
        name = "g%d%s" % (n, d.text(gen.LOWER, 0, 2))
        if d.bool(dotted_pct):
            name += ".p%d" % n
            if d.bool(25):
                name += ".q"
        if d.bool(star_pct):
            name += "*"
        g = {"name": name, "lines": [line(indent)], "tail": [], "children": []}
        sub = indent if d.bool(60) else indent + " "
        for _ in range(d.int(0, 2)):
            g["lines"].append(line(sub))
        if level < depth - 1:
            for _ in range(d.int(0, width)):
                if count[0] >= max_groups:
                    break
                g["children"].append(group(level + 1, False))
        if g["children"]:
            for _ in range(d.int(0, 1)):
                g["tail"].append(line(sub))
        return g

    tops = [group(0, True)]
    while d.bool(25) and len(tops) < 3 and count[0] < max_groups:
        tops.append(group(0, True))
    return tops


def template(g, attrs="", level=0):
    """Tail lines go after the last child."""
    out = ['<group name="%s"%s>' % (gen.xml_attr(g["name"]), attrs)]
    out += [gen.line_template(x) for x in g["lines"]]
    for c in g["children"]:
        out.append(template(c))
    out += [gen.line_template(x) for x in g["tail"]]
    out.append("</group>")
    return "\n".join(out)


def instance(d, g, budget, noise_pct=15, vary=True):
    """-> (text lines, values of the instance, {child index: [instances]}) as a dict."""
    budget[0] -= 1
    text = []
    own = gen.line_values(d, g["lines"][0])
    text.append(gen.line_data(d, g["lines"][0], own, vary))
    vals = dict(own)
    todo = [("line", x) for x in g["lines"][1:] if d.bool(75)]
    for i, c in enumerate(g["children"]):
        for _ in range(d.choice([1, 0, 2, 1, 3])):
            if budget[0] > 0:
                budget[0] -= 1
                todo.append(("child", i))
    todo += [("line", x) for x in g["tail"] if d.bool(75)]
    if d.bool(60):
        todo = d.shuffle(todo)
    kids = {}
    for kind, x in todo:
        if d.bool(noise_pct):
            text.append(gen.noise(d))
        if kind == "line":
            v = gen.line_values(d, x)
            text.append(gen.line_data(d, x, v, vary))
            vals.update(v)
        else:
            inst = instance(d, g["children"][x], budget, noise_pct, vary)
            text += inst["text"]
            kids.setdefault(x, []).append(inst)
    return {"text": text, "vals": vals, "kids": kids}


def put(target, name, items):
    """Store instances at the (dotted, maybe starred) name: lone -> dictionary unless starred, many -> list."""
    *parents, last = name.split(".")
    for p in parents:
        target = target.setdefault(p, {})
    starred = last.endswith("*")
    last = last.rstrip("*")
    target[last] = items if starred or len(items) > 1 else items[0]


def expected(g, inst):
    out = dict(inst["vals"])
    for i, c in enumerate(g["children"]):
        items = [expected(c, k) for k in inst["kids"].get(i, [])]
        if items:
            put(out, c["name"], items)
    return out


def depth(g):
    return 1 + max([depth(c) for c in g["children"]] or [0])


def size(inst):
    return 1 + sum(size(k) for ks in inst["kids"].values() for k in ks)


def inst_depth(inst):
    return 1 + max([inst_depth(k) for ks in inst["kids"].values() for k in ks] or [0])
