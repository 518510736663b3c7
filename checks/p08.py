"""P08: regular expression patterns of match variables - the line matches exactly when the value is in the pattern's language."""
import ipaddress
import re

from vlib import api, gen
from vlib.core import eq, sub

P = "P08"
HEX = "0123456789abcdefABCDEF"


def no_blank(s):
    return bool(s) and not any(c.isspace() or c in "\x1c\x1d\x1e\x1f" for c in s)


def phrase(s, least=1, single=True):
    words = s.split(" ")
    if not single:
        if words[0] == "" or words[-1] == "":
            return False
        words = [w for w in words if w]
    return len(words) > least and all(no_blank(w) for w in words)


def ipv4(s):
    parts = s.split(".")
    return len(parts) == 4 and all(1 <= len(p) <= 3 and all(c in "0123456789" for c in p) for p in parts)


def prefix4(s):
    a, _, b = s.partition("/")
    return ipv4(a) and 1 <= len(b) <= 2 and all(c in "0123456789" for c in b)


def mac(s):
    for sep in ":.-":
        parts = s.split(sep)
        if len(parts) in (6, 3) and all(len(p) == 12 // len(parts) and all(c in HEX for c in p) for p in parts):
            return True
    # None: mixed separators are not decided
    return None if len({c for c in s if c in ":.-"}) > 1 else False


def ipv6(s):
    # None: not decided (the pattern is not exact about malformed addresses)
    if not s or any(c not in HEX + ":" for c in s) or ":" not in s:
        return False
    try:
        a = ipaddress.IPv6Address(s)
    except ValueError:
        return None
    return True if s.lower() in (a.compressed, a.exploded) else None


def prefix6(s):
    a, slash, b = s.partition("/")
    if not slash or not 1 <= len(b) <= 3 or any(c not in "0123456789" for c in b):
        return False
    return ipv6(a)


LANG = {
    "WORD": no_blank,
    "PHRASE": phrase,
    "ORPHRASE": lambda s: phrase(s, 0),
    "ROW": lambda s: phrase(s, 1, False),
    "DIGIT": lambda s: bool(s) and all(c.isdecimal() for c in s),
    "IP": ipv4,
    "PREFIX": prefix4,
    "IPV6": ipv6,
    "PREFIXV6": prefix6,
    "MAC": mac,
}
SINGLE = ["WORD", "DIGIT", "IP", "PREFIX", "IPV6", "PREFIXV6", "MAC"]
# user's regular expressions: template text, expression
USER = ["\\d{2,4}", "[a-f]+", "up.*", "\\w+-\\w+", "Gi?\\d+", "[^:\\s]+", "\\d+/\\d+", "\\S+ \\S+", "(a)(b)?c", "\\d+\\.\\d+", "Up",
        "(?i:up)"]
VARS = {"rx_state": "up|down|admin down", "rx_name": "[A-Z][a-z]*", "rx_any": ".+"}
SHADOW = {"DIGIT": "up|Gi[0-9]+"}  # variables are searched before patterns


def ip_text(d):
    return ".".join(str(d.choice([0, 1, 10, 192, 255, 999, d.int(0, 255)])) for _ in range(4))


def ip6_text(d):
    n = d.choice([0, 1, d.int(0, 2**128 - 1), d.int(0, 2**32), d.int(0, 2**64 - 1) << 64, 0xFE80 << 112 | d.int(0, 2**64 - 1)])
    if d.bool(50):
        for _ in range(d.int(1, 4)):
            n &= ~(0xFFFF << 16 * d.int(0, 7))
    a = ipaddress.IPv6Address(n)
    s = a.compressed if d.bool(70) else a.exploded
    return s.upper() if d.bool(20) else s


def mac_text(d):
    sep = d.choice(":.-")
    n = d.choice([6, 3])
    return sep.join(d.text(HEX, 12 // n, 12 // n) for _ in range(n))


def words(d, lo, hi, gap=False):
    out = d.text(gen.ALNUM + "-_.:/,()", 1, 5)
    for _ in range(d.int(lo, hi)):
        out += (" " * d.int(1, 3) if gap else " ") + d.text(gen.ALNUM + "-_.:/,()", 1, 5)
    return out


def sample(d, kind):
    """A value that is likely in the language of the pattern."""
    if kind == "WORD":
        return gen.word(d)
    if kind == "PHRASE":
        return words(d, 1, 3)
    if kind == "ORPHRASE":
        return words(d, 0, 3)
    if kind == "ROW":
        return words(d, 1, 3, True)
    if kind == "DIGIT":
        return d.text("0123456789", 1, 12)
    if kind == "IP":
        return ip_text(d)
    if kind == "PREFIX":
        return "%s/%d" % (ip_text(d), d.int(0, 32))
    if kind == "IPV6":
        return ip6_text(d)
    if kind == "PREFIXV6":
        return "%s/%d" % (ip6_text(d), d.int(0, 128))
    if kind == "MAC":
        return mac_text(d)
    return d.choice(["12", "123", "abc", "up", "upper", "Up", "ab-cd", "Gi1", "Te22", "1/2", "a b", "ac", "abc", "1.5", "down",
                     "admin down", "Name", "12345", "a:b", "UP"])


def damage(d, s):
    k = d.int(0, 5)
    if not s:
        return s
    i = d.int(0, len(s) - 1)
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + d.choice("0aGz.:/- ") + s[i:]
    if k == 2:
        return s[:i] + d.choice("0aGz.:/-") + s[i + 1:]
    if k == 3:
        return s + d.choice([".1", ":1", "/1", "x", " x", "0"])
    if k == 4:
        return d.choice(["1.", ":", "x", "0", "x "]) + s
    return s.replace(" ", "  ") if " " in s else s + "  y"


def clean(s):
    return s.strip(" ") or "v"


@gen.cases
def patterns(d):
    items, kws = [], d.shuffle(gen.KEYWORDS)
    shadow = d.bool(8)
    names = sorted(set(LANG) - set(SHADOW)) if shadow else sorted(LANG)
    for i in range(d.int(1, 4)):
        kinds = [d.choice(names) if d.bool(75 if not shadow else 40) else d.choice(["re", "var"]) for _ in range(d.choice([1, 1, 1, 2, 3]))]
        alts = []
        for k in kinds:
            if k == "re":
                alts.append(["re", d.choice(USER)])
            elif k == "var":
                alts.append(["var", d.choice(sorted(VARS) if not shadow else sorted(SHADOW) * 3 + sorted(VARS))])
            else:
                alts.append(["pat", k])
        value = sample(d, d.choice(kinds))
        if d.bool(30):
            value = sample(d, d.choice(sorted(LANG)))
        if d.bool(45):
            value = damage(d, value)
        items.append({"kw": kws.pop(), "end": kws.pop(), "alts": alts, "value": clean(value), "form": d.choice(["tail", "mid", "head", "alone", "glued"]),
                      "quote": d.choice("'\""), "ignore": len(alts) == 1 and d.bool(25)})
    return {"items": items, "shadow": shadow}


def member(alts, value):
    res = []
    for kind, x in alts:
        if kind == "pat":
            res.append(LANG[x](value))
        else:
            res.append(re.fullmatch({**VARS, **SHADOW}[x] if kind == "var" else x, value) is not None)
    return True if True in res else None if None in res else False


def suffix(alts, quote='"'):
    return " | ".join(x if kind == "pat" else "re(%s%s%s)" % (quote, x, quote) for kind, x in alts)


@sub(P, "patterns", patterns, 8000, 300000, "at least one value is in the language of a pattern other than WORD, or close to it and rejected")
def check_patterns(case):
    template = ["<vars>\n%s\n</vars>" % "\n".join("%s = %r" % kv for kv in {**VARS, **(SHADOW if case["shadow"] else {})}.items())]
    data, want, labels = [], {}, []
    for i, it in enumerate(case["items"]):
        m = member(it["alts"], it["value"])
        if m is None:
            continue
        v = "{{ v | %s }}" % gen.xml(suffix(it["alts"], it["quote"]))
        if it["ignore"]:  # any value of the language, left out of results
            v = "{{ ignore(%s%s%s) }}" % (it["quote"], gen.xml(it["alts"][0][1]), it["quote"])
        form = {"tail": "%(kw)s %(v)s", "mid": "%(kw)s %(v)s %(end)s", "head": "%(v)s %(end)s", "alone": "%(v)s",
                "glued": "%(kw)s [%(v)s] %(end)s"}[it["form"]]
        if it["form"] in ("head", "alone"):
            # other lines would be matched as well: only in a template of its own
            if len(case["items"]) > 1:
                form = "%(kw)s %(v)s"
        if it["ignore"]:
            form = "%(w)s " + form
        template.append("<group name=\"g%d*\">\n%s\n</group>" % (i, form % dict(it, v=v, w="{{ w }}")))
        data.append(form % dict(it, v=it["value"], w="word%d" % i))
        if m:
            want["g%d" % i] = [{"w": "word%d" % i} if it["ignore"] else {"v": it["value"]}]
        labels += [x for k, x in it["alts"] if k == "pat" and x != "WORD"][:1] and [("in " if m else "out ") + it["alts"][0][1]]
    if not data:
        return None
    r = api.parse1("\n".join(data), "\n".join(template))
    eq(r, want, template="\n".join(template), data=data)
    return labels


@gen.cases
def table(d):
    n = d.int(2, 5)
    cols = []
    for _ in range(n):
        k = d.choice(SINGLE + ["DIGIT", "IP"])
        cols.append(k)
    wide = d.int(-1, n)  # one column may hold several words
    if 0 <= wide < n:
        cols[wide] = d.choice(["PHRASE", "ORPHRASE"])
    rows = []
    for _ in range(d.int(1, 6)):
        row = [sample(d, k) for k in cols]
        if d.bool(40):
            j = d.int(0, n - 1)
            row[j] = clean(damage(d, row[j])) if d.bool(50) else sample(d, d.choice(SINGLE))
        rows.append(row)
    return {"cols": cols, "rows": rows}


@sub(P, "columns", table, 4000, 150000, "at least one row matched and at least two pattern kinds are in use")
def check_table(case):
    cols, rows = case["cols"], case["rows"]
    template = "<group name=\"g*\">\nrow %s\n</group>" % " ".join("{{ c%d | %s }}" % (i, k) for i, k in enumerate(cols))
    wide = [i for i, k in enumerate(cols) if k in ("PHRASE", "ORPHRASE")]
    data, want = [], []
    for row in rows:
        toks = " ".join(row).split(" ")
        if not wide:
            if len(toks) != len(cols):
                ok = False
            else:
                ms = [LANG[k](t) for k, t in zip(cols, toks)]
                ok = False if False in ms else None if None in ms else True
            vals = toks
        else:
            w = wide[0]
            tail = len(cols) - w - 1
            mid = toks[w:len(toks) - tail]
            if len(toks) < len(cols) or any(t == "" for t in toks):
                ok = False
                if any(t == "" for t in toks):
                    continue  # several blanks in a row: may be taken by the blank between the columns
            else:
                vals = toks[:w] + [" ".join(mid)] + toks[len(toks) - tail:]
                ms = [LANG[k](t) for k, t in zip(cols, vals)]
                ok = False if False in ms else None if None in ms else True
        if any(t == "" for t in toks):
            continue
        if ok is None:
            continue
        data.append("row " + " ".join(row))
        if ok:
            want.append({"c%d" % i: v for i, v in enumerate(vals)})
    r = api.parse1("\n".join(data), template)
    eq(r, {"g": want} if want else {}, template=template, data=data)
    return want and len(set(cols)) > 1
