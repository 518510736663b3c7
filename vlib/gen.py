"""Generators. Every random choice goes through Hypothesis integers, so cases shrink and replay."""
import functools
import random

from hypothesis import strategies as st

DIGITS = "0123456789"
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
ALNUM = LOWER + DIGITS + UPPER
# every printable ASCII non-blank plus some wide and accented characters
PUNCT = "-_.:/,;=()[]{}<>&\"'`~!@#$%^*+?|\\"
UNI = "\u00e9\u0416\u4e2d\u00df\u0661\U0001f600\u03a9"
NONBLANK = ALNUM + PUNCT + UNI
# literal words used to tell template lines apart: letters only (digits are wildcards in templates)
KEYWORDS = (
    "interface description vlan mtu speed duplex address neighbor router policy filter area shutdown "
    "logging server host-name peer remote import export metric timer version serial uptime state admin line "
    "encap bandwidth community prefix route mask gateway domain radius tacacs ntp snmp banner class queue "
    "profile bridge span trunk access voice storm arp icmp igmp isis ospf rip bgp vrf tunnel crypto key"
).split()


@functools.lru_cache(maxsize=None)
def _ints(a, b):
    return st.integers(a, b)


class D:
    """Draws. Smaller choices come first, so shrinking moves towards the first element / False / minimum."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        return a if a == b else self.draw(_ints(a, b))

    def bool(self, pct=50):
        return self.int(0, 99) >= 100 - pct

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def text(self, alphabet, lo=1, hi=8):
        return "".join(self.choice(alphabet) for _ in range(self.int(lo, hi)))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.int(0, i)  # 0 keeps the order
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def list(self, fn, lo, hi):
        return [fn() for _ in range(self.int(lo, hi))]


class Seeded(D):
    """Draws out of a seed: for cases that hold many of another kind."""

    def __init__(self, seed):
        self.random = random.Random(seed)

    def int(self, a, b):
        return self.random.randint(a, b)


def cases(fn):
    """Strategy factory out of a function (D) -> JSON-able case."""

    @st.composite
    def strategy(draw):
        return fn(D(draw))

    factory = lambda: strategy()  # noqa: E731
    factory.fn = fn
    return factory


# ---------------------------------------------------------------- values


def word(d, hi=8, avoid="", extra=""):
    """Non-blank token."""
    k = d.int(0, 9)
    if k < 5:
        alphabet = ALNUM
    elif k < 8:
        alphabet = ALNUM + PUNCT
    else:
        alphabet = NONBLANK
    alphabet += extra
    if avoid:
        alphabet = [c for c in alphabet if c not in avoid]
    return d.text(alphabet, 1, hi)


def blanks(d, hi=4):
    """Run of blanks a template blank matches."""
    k = d.int(0, 5)
    if k < 3:
        return " "
    return d.text(" \t", 1, hi)


def xml(text):
    """Escape for use inside template element text."""
    return text.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def xml_attr(text):
    return xml(text).replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")


# ---------------------------------------------------------------- lines
#
# A line is {"kw": unique first word, "indent": str, "toks": [tok...], "flags": {...}}
# tok is {"sep": blanks before it in the template, "parts": [{"lit": text} | {"var": name}]}
# The first token is always the keyword literal.


def _lit(d, exact_digits):
    k = d.int(0, 4)
    if k == 0:
        return d.text(LOWER, 1, 5)
    if k == 1:
        return d.text(LOWER + DIGITS, 1, 6)
    if k == 2:
        return d.text(ALNUM + "-_.:/,;=()[]<>&\"'`~!@#$%^*+?\\|", 1, 6)
    if k == 3:
        return d.choice(["is", "up/down", "(a)", "v1.2", "10", "[x]", "a.b", "$$", "^x", "a*", "x+", "q?", "\\d", "a|b", "100%", "<in>", "&"])
    return d.text(NONBLANK.replace("{", "").replace("}", "").replace("#", ""), 1, 4)


def var_name(d, used):
    while True:
        k = d.int(0, 5)
        if k < 4:
            name = "v" + d.text(LOWER, 1, 3)
        elif k == 4:
            name = "V_" + d.text(LOWER + DIGITS + "_", 1, 3)
        else:
            name = d.choice(["if-name", "x.y", "1st", "a-b-c", "Name", "2", "vrf", "n.1"])
        clean = "".join(c if c.isalnum() or c == "_" else "_" for c in name)
        if clean not in used and "_" + clean not in used:
            used.add(clean)
            used.add("_" + clean)
            return name
        used_suffix = str(len(used))
        name = "w" + used_suffix
        if name not in used:
            used.add(name)
            return name


def line(d, kw, used, indent="", min_vars=1, max_vars=3, max_lits=2):
    """One template line with a unique leading keyword."""
    exact = d.bool(12)
    exact_space = not exact and d.bool(10)
    toks = [{"sep": "", "parts": [{"lit": kw}]}]
    nvars = d.int(min_vars, max_vars)
    nlits = d.int(0, max_lits)
    kinds = d.shuffle(["v"] * nvars + ["l"] * nlits)
    for kind in kinds:
        sep = blanks(d, 3) if d.bool(30) else " "
        if kind == "l":
            parts = [{"lit": _lit(d, exact)}]
        elif d.bool(70):
            parts = [{"var": var_name(d, used)}]
        else:
            parts = glued(d, used)
        toks.append({"sep": sep, "parts": parts})
    # the variable that carries the exact indicator
    return {"indent": indent, "toks": toks, "exact": exact, "exact_space": exact_space, "mark": d.int(0, 3) if exact or exact_space else 0}


def glued(d, used):
    """Token where literals touch variables: prefix{{v}}mid{{w}}suffix with unambiguous borders."""
    delims = "/=,:;()[]-_.<>&\"'"
    parts = []
    if d.bool(60):
        parts.append({"lit": d.choice(["Gi0/", "id=", "(", "[", "mtu:", "x1-", "\"", "<"])})
    parts.append({"var": var_name(d, used)})
    if d.bool(50):
        parts.append({"lit": d.choice(delims)})
        parts.append({"var": var_name(d, used)})
    if d.bool(50) or len(parts) == 1:
        parts.append({"lit": d.choice([",", ")", "]", ";", "\"", ">", "."])})
    return parts


def line_vars(line_):
    return [p["var"] for t in line_["toks"] for p in t["parts"] if "var" in p]


def line_template(line_, suffix=None):
    """Template text of the line (XML-escaped). suffix: {var: " | func"}."""
    out = line_["indent"]
    suffix = suffix or {}
    names = line_vars(line_)
    mark = names[line_.get("mark", 0) % len(names)] if names else None
    for t in line_["toks"]:
        out += t["sep"]
        for p in t["parts"]:
            if "lit" in p:
                out += xml(p["lit"])
            else:
                extra = suffix.get(p["var"], "")
                if p["var"] == mark and line_.get("exact"):
                    extra += " | _exact_"
                elif p["var"] == mark and line_.get("exact_space"):
                    extra += " | _exact_space_"
                out += "{{ " + p["var"] + xml(extra) + " }}"
    return out


def line_values(d, line_, hi=8):
    """Values for the variables of the line: single words that cannot be confused with the borders."""
    values = {}
    for t in line_["toks"]:
        lits = "".join(p["lit"] for p in t["parts"] if "lit" in p)
        glued_ = len(t["parts"]) > 1
        for p in t["parts"]:
            if "var" in p:
                values[p["var"]] = word(d, hi, avoid=lits if glued_ else "", extra="")
    return values


def redigit(d, text):
    """Replace every run of digits by another run of digits."""
    out, i = "", 0
    while i < len(text):
        if text[i] in DIGITS:
            while i < len(text) and text[i] in DIGITS:
                i += 1
            out += d.text(DIGITS, 1, d.choice([1, 4, 12]))
        else:
            out += text[i]
            i += 1
    return out


def line_data(d, line_, values, vary=True):
    """Data line the template line has to match."""
    out = line_["indent"]
    for t in line_["toks"]:
        sep = t["sep"]
        if vary and sep and not line_.get("exact_space") and d.bool(30):
            sep = blanks(d)
        out += sep
        for p in t["parts"]:
            if "lit" in p:
                lit = p["lit"]
                if vary and not line_.get("exact") and not line_.get("exact_space") and any(c in DIGITS for c in lit) and d.bool(40):
                    lit = redigit(d, lit)
                out += lit
            else:
                out += values[p["var"]]
    if vary and d.bool(20):
        out += d.text(" \t", 1, 3)
    return out


def noise(d):
    """Line that no template line of the generators above can match: its first word is no keyword."""
    k = d.int(0, 7)
    if k == 0:
        return ""
    if k == 1:
        return d.text(" \t", 1, 4)
    if k == 2:
        return "!"
    first = "zz" + d.text(ALNUM + PUNCT, 0, 5)
    rest = [word(d) if d.bool(60) else d.choice(KEYWORDS) for _ in range(d.int(0, 4))]
    return d.text(" \t", 0, 3) + " ".join([first] + rest)
