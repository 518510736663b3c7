"""P01: values put into template lines come back exactly; only lines of the template's shape match."""
from vlib import api, gen
from vlib.core import eq, sub

P = "P01"


def flat_template(lines, name="g*"):
    return "<group name=\"%s\">\n%s\n</group>" % (name, "\n".join(gen.line_template(x) for x in lines))


def make_lines(d, n):
    used = set()
    kws = d.sample(gen.KEYWORDS, n)
    out = []
    for i, kw in enumerate(kws):
        indent = "" if d.bool(50) else d.text(" \t", 1, 3)
        out.append(gen.line(d, kw, used, indent))
    return out


@gen.cases
def roundtrip(d):
    lines = make_lines(d, d.int(1, 4))
    records, text = [], []
    for _ in range(d.int(0, 2)):
        text.append(gen.noise(d))
    for _ in range(d.int(0, 4)):
        rec = gen.line_values(d, lines[0])
        text.append(gen.line_data(d, lines[0], rec))
        rec = dict(rec)
        for _ in range(d.int(0, 4)):
            if len(lines) == 1 or d.bool(25):
                text.append(gen.noise(d))
                continue
            ln = d.choice(lines[1:])
            vals = gen.line_values(d, ln)
            text.append(gen.line_data(d, ln, vals))
            for k, v in vals.items():
                rec.setdefault(k, v)
        records.append(rec)
    return {
        "template": flat_template(lines),
        "data": "\n".join(text),
        "eol": d.choice(["\n", "\n", "\r\n"]),
        "tail": d.choice(["", "\n", "\n\n"]),
        "want": records,
    }


@sub(P, "roundtrip", roundtrip, 4000, 150000,
     "at least one record with at least one captured value was expected back")
def check_roundtrip(case):
    data = case["data"].replace("\n", case["eol"]) + case["tail"].replace("\n", case["eol"])
    got = api.parse1(data, case["template"])
    want = {"g": case["want"]} if case["want"] else {}
    eq(got, want, template=case["template"], data=data)
    if not case["want"]:
        return None
    return ["records=%d" % min(len(case["want"]), 4), "eol=%r" % case["eol"],
            "vars>=4" if max(map(len, case["want"])) >= 4 else "vars<4"]


@gen.cases
def nearmiss(d):
    """One good start line, then a damaged copy of one of the lines which must be ignored."""
    lines = make_lines(d, d.int(1, 3))
    victim = d.choice(lines)
    vals = gen.line_values(d, victim)
    bad = gen.line_data(d, victim, vals, vary=False)
    kinds = ["drop", "extra", "indent", "kwletter", "kwcase", "prefix", "glue"]
    if victim["exact"] and any(c in gen.DIGITS for t in victim["toks"] for p in t["parts"] for c in p.get("lit", "")):
        kinds += ["exactdigit"] * 5
    if victim["exact_space"] and len(victim["toks"]) > 1:
        kinds += ["exactspace"] * 5
    kind = d.choice(kinds)
    body = bad[len(victim["indent"]):]
    kw = victim["toks"][0]["parts"][0]["lit"]
    if kind == "drop":
        toks = body.split()
        del toks[d.int(0, len(toks) - 1)]
        bad = victim["indent"] + " ".join(toks)
    elif kind == "extra":
        bad += d.choice([" x", "\tx", " 1", " !", "  interface"])
    elif kind == "indent":
        ind = victim["indent"]
        other = d.choice([" ", "  ", "\t", "", "   ", "x", "."])
        if other == ind:
            other += " "
        bad = other + body
    elif kind == "kwletter":
        i = d.int(0, len(kw) - 1)
        c = d.choice("qzxwk")
        if kw[i] == c:
            c = "j"
        bad = victim["indent"] + kw[:i] + c + body[i + 1:]
    elif kind == "kwcase":
        bad = victim["indent"] + kw.capitalize() + body[len(kw):]
    elif kind == "prefix":
        bad = victim["indent"] + d.choice("x-1.") + body
    elif kind == "glue":
        bad = victim["indent"] + kw + d.choice("x-1.") + body[len(kw):]
    elif kind == "exactdigit":
        for t in victim["toks"]:
            for p in t["parts"]:
                if any(c in gen.DIGITS for c in p.get("lit", "")):
                    j = next(i for i, c in enumerate(p["lit"]) if c in gen.DIGITS)
                    p = p["lit"]
                    break
            else:
                continue
            break
        # rebuild with a different digit in that literal
        new = p[:j] + str((int(p[j]) + 1) % 10) + p[j + 1:]
        toks, done = [], False
        out = victim["indent"]
        for t in victim["toks"]:
            out += t["sep"]
            for q in t["parts"]:
                if q.get("lit") == p and not done:
                    out += new
                    done = True
                else:
                    out += q["lit"] if "lit" in q else vals[q["var"]]
        bad = out
    elif kind == "exactspace":
        i = d.int(1, len(victim["toks"]) - 1)
        out = victim["indent"]
        for n, t in enumerate(victim["toks"]):
            sep = t["sep"]
            if n == i:
                sep = sep + d.choice(" \t") if d.bool(60) else ("\t" if sep == " " else " ")
                if sep == t["sep"]:
                    sep += " "
            out += sep
            for q in t["parts"]:
                out += q["lit"] if "lit" in q else vals[q["var"]]
        bad = out
    start = gen.line_values(d, lines[0])
    good = gen.line_data(d, lines[0], start)
    before = d.bool(30)
    return {
        "template": flat_template(lines),
        "data": "\n".join([bad, good] if before else [good, bad]),
        "bad": bad,
        "kind": kind,
        "want": [start],
    }


@sub(P, "nearmiss", nearmiss, 2500, 80000, "a damaged line differing from a template line by one edit was present")
def check_nearmiss(case):
    got = api.parse1(case["data"], case["template"])
    eq(got, {"g": case["want"]}, template=case["template"], data=case["data"], bad_line=case["bad"], kind=case["kind"])
    return [case["kind"]]
