"""P10: conditions on match variables - a line counts exactly when all conditions of all its variables hold."""
import ipaddress
import re

from checks import p09
from vlib import api, funcs, gen
from vlib.core import eq, sub

P = "P10"

VARS = dict(p09.VARS, word_var="up", rx_var="up|down|ab+c", net_var="10.1.0.0/16", net6_var="2001:db8::/32", text_in="Eth", num_var=5)
BIG = "12345678901234567"
WORDS = [BIG, BIG[:-1] + "5", "up", "down", "UP", "updown", "xup", "downx", "Eth1", "Ethernet", "eth1", "1", "5", "05", "12", "100", "-5", "1.5", "abc", "abbc",
         "10.1.2.3", "10.2.0.1", "10.1.0.0/16", "10.0.0.0/8", "10.1.255.255/30", "192.168.1.1/24", "999.1.1.1", "10.1.2", "2001:db8::1", "2001:db9::1/64",
         "2001:db8::/16", "2001:db8::2", "a", "A1", "a-b", "admin", "Gi0/1", "::1", "10.1.2.3/33", "01.1.1.1", "é", "5a"]
PHRASES = ["10.1.2.3 255.255.255.0", "10.9.0.1 255.0.0.0", "admin down", "up and down", "10.1.2.3 24", "5 5"]


def ip_of(s):
    """(version, network int, prefix length) or None - written without the interface classes."""
    s = s.replace(" ", "/")
    a, slash, m = s.partition("/")
    parts = a.split(".")
    if ":" in a:
        try:
            n = int(ipaddress.IPv6Address(a))
        except ValueError:
            return None
        bits = 128
    else:
        if len(parts) != 4 or not all(p.isdecimal() and p.isascii() and len(p) <= 3 and int(p) < 256 and (p == "0" or p[0] != "0") for p in parts):
            return None
        n = 0
        for p in parts:
            n = n * 256 + int(p)
        bits = 32
    if not slash:
        return (bits, n, bits)
    if m.isdecimal() and m.isascii():
        plen = int(m)
        if plen > bits:
            return None
    else:
        r = ip_of(m) if bits == 32 else None
        if r is None:
            return None
        b = "{:032b}".format(r[1])
        if "01" in b:
            return None
        plen = b.count("1")
    return (bits, n, plen)


def overlap(v, prefix):
    a, b = ip_of(v), ip_of(prefix)
    if a is None:
        return True
    if a[0] != b[0]:
        return False
    k = a[0] - min(a[2], b[2])
    return a[1] >> k == b[1] >> k


def digits(s):
    return s.strip(" ").isdecimal()


RX = ["^up", "[0-9]+", "n$", "^\\w+$", "p", "rx_var", "word_var", "[A-Z]", "10\\.1\\.", "a.c"]
TEXT = ["up", "down", "1", "Eth", "word_var", "text_in", ".", "a", "x", "10."]
COND = {
    "contains": (lambda d: [d.choice(TEXT) for _ in range(d.int(1, 3))], lambda v, *a: any(x in v for x in a), True),
    "exclude": (lambda d: [d.choice(TEXT)], lambda v, x: x not in v, True),
    "equal": (lambda d: [d.choice(TEXT + ["12", "num_var"])], lambda v, x: v == x, True),
    "notequal": (lambda d: [d.choice(TEXT + ["12", "num_var"])], lambda v, x: v != x, True),
    "contains_re": (lambda d: [d.choice(RX)], lambda v, x: re.search(x, v) is not None, True),
    "exclude_re": (lambda d: [d.choice(RX)], lambda v, x: re.search(x, v) is None, True),
    "startswith_re": (lambda d: [d.choice(RX)], lambda v, x: re.match(x, v) is not None, True),
    "notstartswith_re": (lambda d: [d.choice(RX)], lambda v, x: re.match(x, v) is None, True),
    "endswith_re": (lambda d: [d.choice(RX)], lambda v, x: any(re.fullmatch(x, v[i:]) for i in range(len(v) + 1)) if "^" not in x and "$" not in x
                    else re.search("(?:" + x + ")\\Z", v) is not None, True),
    "notendswith_re": (lambda d: [d.choice(RX)], lambda v, x: re.search("(?:" + x + ")\\Z", v) is None, True),
    "isdigit": (lambda d: [], lambda v: digits(v), False),
    "notdigit": (lambda d: [], lambda v: not digits(v), False),
    "greaterthan": (lambda d: [d.choice(["0", "5", "11", "100", "9", "x", BIG[:-1] + "8", BIG[:-1] + "4"])], lambda v, x: digits(v) and digits(x) and int(v) > int(x), False),
    "lessthan": (lambda d: [d.choice(["1", "5", "13", "100", "9", "x", BIG[:-1] + "8", BIG[:-1] + "4"])], lambda v, x: digits(v) and digits(x) and int(v) < int(x), False),
    "is_ip": (lambda d: [], lambda v: ip_of(v) is not None, False),
    "cidr_match": (lambda d: [d.choice(["10.0.0.0/8", "10.1.2.0/24", "net_var", "net6_var", "0.0.0.0/0", "10.1.2.3/32", "2001:db8::/48", "2001:db8::2/128", "2001:db8:0:0:1::/80", "10.1.2.2/31"])],
                   lambda v, x: overlap(v, x), True),
    "startswith": (lambda d: [d.choice(["up", "E", "1"])], lambda v, x: v[:len(x)] == x, False),
    "endswith": (lambda d: [d.choice(["up", "n", "1"])], lambda v, x: v[len(v) - len(x):] == x, False),
    "isalpha": (lambda d: [], lambda v: v != "" and all(c.isalpha() for c in v), False),
    "isupper": (lambda d: [], lambda v: v == v.upper() and v != v.lower(), False),
    "islower": (lambda d: [], lambda v: v == v.lower() and v != v.upper(), False),
    "isalnum": (lambda d: [], lambda v: v != "" and all(c.isalnum() for c in v), False),
}


def gen_calls(d, v, used):
    calls = []
    for _ in range(d.choice([0, 1, 1, 1, 2, 2, 3])):
        if d.bool(75):
            f = d.choice(sorted(COND))
            calls.append(["?" + f, COND[f][0](d), {}])
        else:
            f = d.choice(["upper", "lower", "append", "prepend", "replaceall", "truncate", "copy"])
            args, kwargs = p09.STR[f](d)
            calls.append([f, [gen.var_name(d, used) if x == "@new" else x for x in args], kwargs])
    return calls


def draw_vals(d, ln):
    return [d.choice(PHRASES) if x["phrase"] and d.bool(40) else d.choice(WORDS) for x in ln["vars"]]


@gen.cases
def conditions(d):
    kws = d.shuffle(gen.KEYWORDS)
    used, lines, vars_ = set(), [], {}
    for i in range(d.int(2, 4)):
        variables = []
        n = d.choice([1, 1, 2, 3])
        for j in range(n):
            name = gen.var_name(d, used)
            phrase = j == n - 1 and d.bool(25)
            calls = gen_calls(d, "", used) if i or d.bool(60) else []
            texts = [funcs.call(d, c[0].lstrip("?"), c[1], c[2]) for c in calls]
            if texts and d.bool(25):
                cut = d.int(0, len(texts) - 1)
                cv = "chain_%d" % len(vars_)
                vars_[cv] = funcs.pipe(d, texts[cut:]) if d.bool(50) else texts[cut:]
                texts = texts[:cut] + [funcs.call(d, "chain", [cv])]
            if phrase:
                texts.insert(0, "ORPHRASE")
            variables.append({"name": name, "phrase": phrase, "calls": calls, "text": funcs.pipe(d, [name] + texts)})
        lines.append({"kw": kws.pop(), "vars": variables})
    seq = []
    for _ in range(d.int(3, 10)):
        li = d.int(0, len(lines) - 1) if d.bool(70) else 0
        vals = draw_vals(d, lines[li])
        for _ in range(d.choice([0, 0, 6, 12])):  # look for values that pass
            if eval_line(lines[li], vals)[0] is not None:
                break
            vals = draw_vals(d, lines[li])
        seq.append([li, vals])
    return {"lines": lines, "vars": vars_, "seq": seq}


def eval_line(ln, vals):
    """None when a condition fails."""
    res, checked = {}, False
    for x, v in zip(ln["vars"], vals):
        new = {}
        for f, args, kwargs in x["calls"]:
            if f[0] == "?":
                checked = True
                _, fn, byvar = COND[f[1:]]
                if not fn(v, *[VARS.get(a, a) if byvar else a for a in args]):
                    return None, True
            else:
                v = p09.ref(f, v, args, kwargs, new)
        res[x["name"]] = v
        res.update(new)
    return res, checked


@sub(P, "conditions", conditions, 9000, 300000, "at least one line was rejected and at least one line with a condition was accepted")
def check_conditions(case):
    lines = case["lines"]
    template = ["<vars>\n%s\n</vars>" % gen.xml("\n".join("%s = %r" % kv for kv in dict(VARS, **case["vars"]).items())), "<group name=\"g*\">"]
    for ln in lines:
        template.append("%s %s" % (ln["kw"], " ".join("{{ %s }}" % gen.xml(x["text"]) for x in ln["vars"])))
    template.append("</group>")
    data, recs, cur, n_ok, n_bad = [], [], None, 0, 0
    for li, vals in case["seq"]:
        data.append(" ".join([lines[li]["kw"]] + vals))
        res, checked = eval_line(lines[li], vals)
        if res is None:
            n_bad += 1
            if li == 0:
                cur = None
            continue
        n_ok += checked
        if li == 0:
            cur = dict(res)
            recs.append(cur)
        elif cur is not None:
            for k, v in res.items():
                cur.setdefault(k, v)
    r = api.parse1("\n".join(data), "\n".join(template))
    eq(r, {"g": recs} if recs else {}, template="\n".join(template), data=data)
    if n_ok and n_bad:
        return sorted({f[1:] for ln in lines for x in ln["vars"] for f, _, _ in x["calls"] if f[0] == "?"})
    return None
