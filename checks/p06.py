"""P06: indicators - ignore, set, _line_, joinmatches, _headers_."""
from vlib import api, gen
from vlib.core import ensure, eq, sub

P = "P06"

# ---------------------------------------------------------------- ignore

IGN = [
    # (template text, kind)
    ("{{ ignore }}", "word"),
    ("{{ ignore(\"\\\\d+\") }}", "digits"),
    ("{{ ignore(\"[a-z]+[0-9]?\") }}", "lower"),
    ("{{ ignore(\"\\\\S+ \\\\S+\") }}", "two"),
    ("{{ ignore(\"DIGIT\") }}", "digits"),
    ("{{ ignore(\"PHRASE\") }}", "two"),
    ("{{ ignore(\"IP\") }}", "ip"),
    ("{{ ignore(\"my_pat\") }}", "yesno"),
]


def ign_value(d, kind):
    if kind == "word":
        return gen.word(d)
    if kind == "digits":
        return d.text(gen.DIGITS, 1, 4)
    if kind == "lower":
        return d.text(gen.LOWER, 1, 5) + (d.choice(["", "7"]))
    if kind == "two":
        return gen.word(d) + " " + gen.word(d)
    if kind == "ip":
        return ".".join(str(d.int(0, 255)) for _ in range(4))
    if kind == "yesno":
        return d.choice(["yes", "no"])
    raise ValueError(kind)


def ign_bad(d, kind):
    return {
        "word": "", "digits": d.choice(["x1", "1x", "-1", "."]), "lower": d.choice(["A", "1a", "a12", "-"]),
        "two": d.choice(["x", "7"]), "ip": d.choice(["1.2.3", "a.b.c.d", "1.2.3.4.5", "1.2.3."]),
        "yesno": d.choice(["maybe", "yesno", "Yes"]),
    }[kind]


def ign_line(d, kw, used, indent, nvars):
    toks = []
    for k in d.shuffle(["v"] * nvars + ["i"] * d.int(1, 3) + ["l"] * d.int(0, 1)):
        if k == "v":
            toks.append(["v", gen.var_name(d, used)])
        elif k == "l":
            toks.append(["l", d.text(gen.LOWER + "-/.(", 1, 5)])
        else:
            toks.append(["i", d.int(0, len(IGN) - 1), d.choice(["", "", "(", "id="])])
    return {"kw": kw, "indent": indent, "toks": toks}


def ign_template(ln):
    out = ln["indent"] + ln["kw"]
    for t in ln["toks"]:
        out += " "
        if t[0] == "v":
            out += "{{ %s }}" % t[1]
        elif t[0] == "l":
            out += gen.xml(t[1])
        else:
            out += gen.xml(t[2]) + IGN[t[1]][0]
    return out


def ign_data(d, ln, bad=False):
    vals = {}
    out = ln["indent"] + ln["kw"]
    ign = [i for i, t in enumerate(ln["toks"]) if t[0] == "i"]
    victim = d.choice(ign) if bad else None
    for i, t in enumerate(ln["toks"]):
        out += gen.blanks(d) if d.bool(20) else " "
        if t[0] == "v":
            vals[t[1]] = gen.word(d)
            out += vals[t[1]]
        elif t[0] == "l":
            out += t[1]
        else:
            kind = IGN[t[1]][1]
            out += t[2] + (ign_bad(d, kind) if i == victim else ign_value(d, kind))
    return out, vals


@gen.cases
def ignore(d):
    used = {"ignore"}
    kws = d.sample(gen.KEYWORDS, 2)
    start = ign_line(d, kws[0], used, d.choice(["", " "]), d.int(1, 2))
    other = ign_line(d, kws[1], used, d.choice([" ", ""]), d.int(0, 2))
    data, want = [], []
    for _ in range(d.int(1, 4)):
        if d.bool(20):
            # damaged start line does not open a record; nothing may follow it
            text, _ = ign_data(d, start, bad=True)
            if damaged_ok(start):
                data.append(text)
                continue
        text, vals = ign_data(d, start)
        data.append(text)
        rec = dict(vals)
        for _ in range(d.int(0, 2)):
            bad = d.bool(25) and damaged_ok(other)
            text, vals = ign_data(d, other, bad=bad)
            data.append(text)
            if not bad:
                for k, v in vals.items():
                    rec.setdefault(k, v)
        want.append(rec)
    return {"template": "<group name=\"r*\">\n%s\n%s\n</group>" % (ign_template(start), ign_template(other)),
            "data": "\n".join(data), "want": want}


def damaged_ok(ln):
    """A damaged value has to stay damaged: no token of the line may absorb several words."""
    kinds = [IGN[t[1]][1] for t in ln["toks"] if t[0] == "i"]
    return "two" not in kinds


@sub(P, "ignore", ignore, 2500, 80000, "at least one record was expected back from lines with ignored parts")
def check_ignore(case):
    got = api.parse1(case["data"], case["template"], vars={"my_pat": "yes|no"})
    eq(got, {"r": case["want"]} if case["want"] else {}, template=case["template"], data=case["data"])
    return ["records=%d" % len(case["want"])] if case["want"] else None


# ---------------------------------------------------------------- set

SETVALS = [("\"static\"", "static"), ("\"True\"", "True"), ("True", True), ("False", False), ("None", None), ("7", 7),
           ("\"a b\"", "a b"), ("\"\"", ""), ("\"str_var\"", "from vars"), ("\"list_var\"", [1, "x"]),
           ("\"int_var\"", 42), ("\"dict_var\"", {"k": "v"})]
SETVARS = {"str_var": "from vars", "list_var": [1, "x"], "int_var": 42, "dict_var": {"k": "v"}}


@gen.cases
def set_(d):
    kws = d.sample(gen.KEYWORDS, 4)
    cond = []
    used = {"name"}
    for kw in kws[1:1 + d.int(1, 3)]:
        lit = kw + d.choice(["", " 10", " on", "  off", " 1/1 x", " is (up)", "-x.y", "\ton", " a\t b"])
        indent = d.choice(["", " ", "  "])
        names = [gen.var_name(d, used) for _ in range(d.choice([1, 1, 1, 2]))]
        cond.append({"lit": indent + lit, "sets": [[n, d.int(0, len(SETVALS) - 1)] for n in names]})
    uncond = [[gen.var_name(d, used), d.int(0, len(SETVALS) - 1)] for _ in range(d.int(0, 2))]
    lines = ["%s {{ name }}" % kws[0]]
    for c in cond:
        lines.append(gen.xml(c["lit"]) + " " + " ".join(
            "{{ %s | set(%s) }}" % (n, SETVALS[i][0]) for n, i in c["sets"]))
    for n, i in uncond:
        lines.insert(d.int(1, len(lines)), "{{ %s | set(%s) }}" % (n, SETVALS[i][0]))
    data, want = [], []
    for _ in range(d.int(1, 4)):
        name = gen.word(d)
        rec = {"name": name}
        data.append("%s %s" % (kws[0], name))
        for c in cond:
            k = d.int(0, 3)
            if k == 0:
                continue
            if k == 3:
                # differs in a digit or in spacing, or has something after it: not that line
                text = c["lit"]
                if any(x in gen.DIGITS for x in text) and d.bool(60):
                    i = next(i for i, x in enumerate(text) if x in gen.DIGITS)
                    text = text[:i] + str((int(text[i]) + 1) % 10) + text[i + 1:]
                else:
                    text += d.choice([" x", "x", "-1"])
                data.append(text)
                continue
            data.append(c["lit"] + d.choice(["", "", " ", "\t "]))
            for n, i in c["sets"]:
                rec[n] = SETVALS[i][1]
        for n, i in uncond:
            rec[n] = SETVALS[i][1]
        want.append(rec)
    return {"template": "<group name=\"r*\">\n%s\n</group>" % "\n".join(lines), "data": "\n".join(data), "want": want,
            "many": d.bool(30)}


@sub(P, "set", set_, 2500, 80000, "at least one record carries a value put there by set")
def check_set(case):
    if case["many"]:  # same data twice: nothing set for the first input leaks to the second
        r = api.parse([case["data"], case["data"] + "\n"], case["template"], vars=dict(SETVARS))
        eq(r, [[{"r": case["want"]}, {"r": case["want"]}]], template=case["template"], data=case["data"])
    else:
        got = api.parse1(case["data"], case["template"], vars=dict(SETVARS))
        eq(got, {"r": case["want"]}, template=case["template"], data=case["data"])
    n = sum(len(r) - 1 for r in case["want"])
    return ["set=%d" % min(n, 5)] if n else None


# ---------------------------------------------------------------- _line_


@gen.cases
def lines(d):
    kws = d.sample(gen.KEYWORDS, 4)
    filt = d.choice([None, None, "contains", "exclude"])
    needle = d.choice(["a", "up", "10"])
    char = d.choice([None, None, " ", ",", "", "; "])
    indent = d.choice(["", "", " "])
    has_end = d.bool(60)
    has_other = d.bool(50)
    var = "{{ body | _line_ %s%s}}" % (
        "| %s(\"%s\") " % (filt, needle) if filt else "",
        "| joinmatches(\"%s\") " % char if char is not None else d.choice(["", "| joinmatches "]))
    t = ["%s {{ name }}" % kws[0]]
    if has_other:
        t.append("%s {{ other }}" % kws[1])
    t.append(indent + var)
    if has_end:
        t.append("%s {{ _end_ }}" % kws[2])
    data, want = [], []
    for _ in range(d.int(0, 2)):
        data.append(gen.noise(d))
    for ri in range(d.int(1, 3)):
        name = gen.word(d)
        rec, body = {"name": name}, []
        data.append("%s %s" % (kws[0], name))
        for _ in range(d.int(0, 5)):
            k = d.int(0, 9)
            if k == 0 and has_other:
                v = gen.word(d)
                data.append("%s %s" % (kws[1], v))
                rec.setdefault("other", v)
                continue
            text = gen.noise(d) if k < 5 else d.text(gen.ALNUM + "  \t!.-", 1, 12)
            if k == 9:
                text = " " + text
            first = text.split()[:1]
            if first and first[0] in kws:
                text = "q" + text
            data.append(text)
            if not text or not text.startswith(indent):
                continue
            if len(text) == len(indent):
                continue  # nothing left for the line itself
            value = text[len(indent):]
            if filt == "contains" and needle not in value:
                continue
            if filt == "exclude" and needle in value:
                continue
            body.append(value)
        if body:
            rec["body"] = ("\n" if char is None else char).join(body)
        want.append(rec)
        if has_end and d.bool(70):
            data.append(kws[2])
            for _ in range(d.int(0, 2)):
                # after the end indicator lines are not collected
                data.append(d.choice(["", "zz after", " zz after"]))
    return {"template": "<group name=\"r*\">\n%s\n</group>" % "\n".join(t), "data": "\n".join(data), "want": want,
            "filt": filt, "end": has_end}


@sub(P, "line", lines, 3000, 80000, "at least one line was expected to be collected")
def check_lines(case):
    got = api.parse1(case["data"], case["template"])
    eq(got, {"r": case["want"]}, template=case["template"], data=case["data"])
    n = sum("body" in r for r in case["want"])
    return ["filter=%s" % case["filt"], "end=%s" % case["end"]] if n else None


# ---------------------------------------------------------------- _line_ in nested groups


@gen.cases
def blocks(d):
    kws = d.sample(gen.KEYWORDS, 4)
    path = d.choice(["_", "_", "sub", "subs*", "deep._"])
    empty_start = d.bool(50)
    char = d.choice([None, None, " ", "; "])
    t = ["%s {{ name }}" % kws[0], " %s {{ other }}" % kws[3], '<group name="%s">' % path, kws[1] + (" {{ _start_ }}" if empty_start else " {{ tag }}"),
         d.choice(["", " "]) + "{{ body | _line_%s }}" % ("" if char is None else ' | joinmatches("%s")' % char), kws[2] + " {{ _end_ }}", "</group>"]
    indent = " " if t[4][0] == " " else ""
    data, want, lines = [gen.noise(d) for _ in range(d.int(0, 3))], [], 0
    for _ in range(d.int(1, 4)):
        name = gen.word(d)
        data.append("%s %s" % (kws[0], name))
        rec, subs = {"name": name}, []
        other = gen.word(d) if d.bool(50) else None
        early = d.bool(50)
        if other and early:
            data.append(" %s %s" % (kws[3], other))
            rec["other"] = other
        for _ in range(d.choice([0, 1, 1, 1]) if path != "subs*" else d.int(0, 3)):
            sub, body = {}, []
            data.append(kws[1])
            if not empty_start:
                sub["tag"] = gen.word(d)
                data[-1] += " " + sub["tag"]
            for _ in range(d.int(1, 4)):
                v = "q" + gen.word(d) + d.choice(["", " up", " 10.0.0.1/8", "  x"])
                data.append(indent + v)
                body.append(v)
                if d.bool(20):
                    data.append("")
            sub["body"] = ("\n" if char is None else char).join(body)
            lines += len(body)
            subs.append(sub)
            data.append(kws[2])
            for _ in range(d.int(0, 2)):
                data.append(d.choice(["", "zz after", " zz after", "  zz 1"]))
        if other and not early:
            data.append(" %s %s" % (kws[3], other))
            rec["other"] = other
        where = rec
        for x in subs:
            if path == "subs*":
                rec.setdefault("subs", []).append(x)
            elif path == "sub":
                rec["sub"] = x
            elif path == "deep._":
                rec["deep"] = x
            else:
                rec.update(x)
        want.append(rec)
    return {"template": '<group name="r*">\n%s\n</group>' % "\n".join(t), "data": "\n".join(data), "want": want, "path": path, "lines": lines}


@sub(P, "blocks", blocks, 1500, 40000, "at least one line was expected to be collected")
def check_blocks(case):
    got = api.parse1(case["data"], case["template"])
    eq(got, {"r": case["want"]}, template=case["template"], data=case["data"])
    return ["path=%s" % case["path"]] if case["lines"] else None


# ---------------------------------------------------------------- joinmatches


@gen.cases
def joins(d):
    kws = d.sample(gen.KEYWORDS, 4)
    kind = d.choice(["str", "str", "int", "list"])
    char = d.choice([None, ",", " ", "", "--", "\\\\n"])
    # escaped twice: template text -> python literal
    real = {None: "\n", "\\\\n": "\\n"}.get(char, char)
    arg = "" if char is None else "(\"%s\")" % char
    conv = {"str": "", "int": " | to_int", "list": " | to_list"}[kind]
    child = d.bool(40)
    var = "{{ vals%s | joinmatches%s }}" % (conv, arg)
    t = ["%s {{ name }}" % kws[0], "%s %s" % (kws[1], var)]
    second = d.bool(30)
    if second:
        t.append(" also %s" % var)
    if child:
        t += ["<group name=\"c*\">", "%s {{ cv }}" % kws[2], "</group>"]
    data, want = [], []
    for _ in range(d.int(1, 3)):
        name = gen.word(d)
        rec, vals, ch = {"name": name}, [], []
        data.append("%s %s" % (kws[0], name))
        for _ in range(d.int(0, 6)):
            k = d.int(0, 9)
            if child and k < 3:
                v = gen.word(d)
                data.append("%s %s" % (kws[2], v))
                ch.append({"cv": v})
                continue
            if k == 3:
                data.append(gen.noise(d))
                continue
            v = str(d.int(0, 999)) if kind == "int" else gen.word(d)
            data.append("%s %s" % (" also" if second and d.bool(40) else kws[1], v))
            vals.append(int(v) if kind == "int" else v)
        if vals:
            if kind == "str":
                rec["vals"] = real.join(vals)
            elif kind == "int" and len(vals) == 1:
                rec["vals"] = vals[0]
            else:
                rec["vals"] = vals
        if ch:
            rec["c"] = ch
        want.append(rec)
    return {"template": "<group name=\"r*\">\n%s\n</group>" % "\n".join(t), "data": "\n".join(data), "want": want,
            "kind": kind}


@sub(P, "joinmatches", joins, 3000, 80000, "at least one record joined two or more matches")
def check_joins(case):
    got = api.parse1(case["data"], case["template"])
    eq(got, {"r": case["want"]}, template=case["template"], data=case["data"])
    many = sum(1 for r in case["want"] if "vals" in r)
    return [case["kind"], "child" if any("c" in r for r in case["want"]) else "flat"] if many else None


# ---------------------------------------------------------------- _headers_


@gen.cases
def headers(d):
    n = d.int(1, 5)
    names = d.sample(["Port", "Name", "Status", "Vlan", "Duplex", "Speed", "Type", "V1_x"], n)
    widths = [len(h) + d.int(1, 6) for h in names]
    indent = d.int(0, 3) if d.bool(40) else 0
    head = " " * indent + "".join(h.ljust(w) for h, w in zip(names, widths)).rstrip()
    columns = d.int(1, n + 1) if d.bool(50) else None
    theader = head
    if d.bool(20):  # a tab of the header's indentation counts as 4 blanks
        tabs = d.int(1, 2)
        head = " " * (4 * tabs) + head[indent:]
        indent = 4 * tabs
        theader = "\t" * tabs + head[indent:]
    c = max(1, n - 2) if columns is None else min(columns, n)
    w = [widths[0] + indent] + widths[1:]
    # the end line must not be long enough to be a row itself
    end = d.bool(50) and sum(w[: c - 1]) + 1 > len("zzend")
    rows, want = [head], []
    rows += [""] if d.bool(30) else []
    for _ in range(d.int(1, 5)):
        k = d.int(0, 9)
        cells = []
        for i in range(n):
            size = w[i]
            if i == n - 1:
                size += 6
            cell = d.text(gen.LOWER + gen.DIGITS + "/-", 0 if i else 1, max(1, min(size - 1, 8)))
            if d.bool(10) and size > 3:
                cell = (cell[: size - 3] + " z")
            cells.append(cell)
        row = "".join(x.ljust(y) for x, y in zip(cells[:-1], w[:-1])) + cells[-1]
        if k < 3:
            row = row.rstrip()
        elif k == 3:
            row = row[: d.int(1, len(row))]  # short row
        elif k == 4:
            row = " " * d.int(1, 3) + row[:-1]
        rows.append(row)
        # reference: cut by the header positions
        if len(row) < sum(w[: c - 1]) + 1:
            continue
        rec, pos = {}, 0
        for i, h in enumerate(names):
            stop = None if i == n - 1 else pos + w[i]
            rec[h] = row[pos:stop].strip()
            pos = len(row) if stop is None else stop
        if any(h in rec[h] for h in names):
            continue
        want.append(rec)
    t = theader + "  {{ _headers_%s }}" % (" | columns(%d)" % columns if columns else "")
    if end:
        t += "\nzzend {{ _end_ }}"
        rows += ["zzend", "after"[: sum(w[: c - 1])]]
    return {"template": "<group name=\"t*\">\n%s\n</group>" % t, "data": "\n".join(rows), "want": want,
            "columns": columns, "n": n}


@sub(P, "headers", headers, 2500, 80000, "at least one table row was expected back")
def check_headers(case):
    got = api.parse1(case["data"], case["template"])
    eq(got, {"t": case["want"]} if case["want"] else {}, template=case["template"], data=case["data"])
    return ["columns=%s" % case["columns"], "n=%d" % case["n"]] if case["want"] else None
