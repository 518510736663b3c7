"""P05: text no template line matches, line endings and position of the text have no influence."""
from checks import p02, p04
from vlib import api, gen
from vlib.core import eq, sub

P = "P05"


@gen.cases
def disturb(d):
    base = d.choice([p02.hierarchy, p04.boundaries]).fn(d)
    lines = base["data"].split("\n")
    kinds = set()
    out = []
    k = d.int(0, 3)
    if k == 1:
        out += [gen.noise(d) for _ in range(d.int(1, 3))]
        kinds.add("preamble")
    elif k >= 2:  # long preamble: offsets in the text grow well past the length of the text itself
        out += ["zz filler %d %s" % (i, "x" * d.int(0, 60)) for i in range(d.int(1, 60))]
        kinds.add("long preamble")
    for x in lines:
        if d.bool(20):
            out += [gen.noise(d) for _ in range(d.int(1, 2))]
            kinds.add("inside")
        if d.bool(10):
            x += d.text(" \t", 1, 3)
            kinds.add("blanks")
        out.append(x)
    if d.bool(40):
        out += [gen.noise(d) for _ in range(d.int(1, 4))]
        kinds.add("trailer")
    eol = "\n"
    if d.bool(25):
        eol = "\r\n"
        kinds.add("crlf")
    return {"template": base["template"], "data": base["data"], "other": eol.join(out) + d.choice(["", eol, eol * 3]),
            "kinds": sorted(kinds)}


@sub(P, "disturb", disturb, 3000, 100000, "the text was changed and something was matched in it")
def check_disturb(case):
    want = api.parse1(case["data"], case["template"])
    got = api.parse1(case["other"], case["template"])
    eq(got, want, template=case["template"], data=case["data"], disturbed=case["other"])
    return case["kinds"] if want and case["kinds"] else None


@gen.cases
def halves(d):
    from checks import p01

    lines = p01.make_lines(d, d.int(1, 3))

    def block():
        text = []
        for _ in range(d.int(1, 4)):
            text.append(gen.line_data(d, lines[0], gen.line_values(d, lines[0])))
            for ln in lines[1:]:
                if d.bool(60):
                    text.append(gen.line_data(d, ln, gen.line_values(d, ln)))
                if d.bool(15):
                    text.append(gen.noise(d))
        return "\n".join(text)

    return {"template": p01.flat_template(lines), "a": block(), "b": block(), "sep": "\n" * d.int(1, 3)}


@sub(P, "concatenation", halves, 1500, 50000, "both halves hold records")
def check_halves(case):
    a, b = api.parse1(case["a"], case["template"]), api.parse1(case["b"], case["template"])
    both = api.parse1(case["a"] + case["sep"] + case["b"], case["template"])
    eq(both, {"g": a["g"] + b["g"]}, template=case["template"], a=case["a"], b=case["b"])
    return ["concat"]


# ------------------------------------------------------------------ very long text


@gen.cases
def long_text(d):
    """Groups with and without defaults on two or three levels; the same text short and with megabytes of other lines in it."""
    kws, used = d.shuffle(gen.KEYWORDS), set()
    deflt = [' | default("none")', " | default(0)", " | default"]
    words = []

    def make(depth, name):
        head, tail = "<group name=\"%s\">" % name, "</group>"
        out = [head]
        mine = []
        for j in range(d.int(1, 2)):
            mine.append(kws.pop())
            out.append("%s%s {{ %s%s }}" % (" " * depth, mine[-1], gen.var_name(d, used), d.choice(deflt) if d.bool(50) else ""))
        words.append([depth, mine])
        if depth < 2:
            for k in range(d.choice([0, 1, 1, 2]) if depth else d.int(1, 2)):
                out += make(depth + 1, "%s%d%s" % ("cd"[depth], k, d.choice(["", "*"])))
        return out + [tail]

    t = []
    for i in range(d.int(1, 2)):
        t += make(0, "g%d%s" % (i, d.choice(["*", "*", ""])))
    data = []
    for _ in range(d.int(1, 8)):
        depth, mine = d.choice(words[:1] + words)
        data += ["%s%s %s" % (" " * depth, w, gen.word(d)) for w in (mine if d.bool(60) else mine[:1])]
    at = d.sample(range(len(data) + 1), d.choice([1, 1, 2]))
    return {"template": "\n".join(t), "data": data, "filler": [[i, d.choice([1, 100, 20000, 400000, 400000]), d.choice(["zz filler text, no line", "z", ""])] for i in sorted(at)]}


@sub(P, "long", long_text, 120, 2500, "more than 10 MB of text were added and something was matched")
def check_long(case):
    out, size = list(case["data"]), 0
    for i, n, text in reversed(case["filler"]):
        block = "\n".join(["%s%s" % (text, " " * (28 - len(text)))] * n)
        size += len(block)
        out.insert(i, block)
    want = api.parse1("\n".join(case["data"]), case["template"])
    got = api.parse1("\n".join(out), case["template"])
    eq(got, want, template=case["template"], data="\n".join(case["data"]), filler=case["filler"])
    return ["%d MB" % (size // 10000000 * 10)] if size > 10000000 and want else None
