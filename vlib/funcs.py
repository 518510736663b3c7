"""Rendering of function calls into template text, shared by the checks of match variable functions."""
import keyword

from vlib import gen


def lit(d, value):
    """Template text of an argument."""
    if isinstance(value, str):
        if value.isidentifier() and value.isascii() and not keyword.iskeyword(value) and value.lower() not in ("true", "false", "none") and d.bool(30):
            return value  # bare words are strings
        q = d.choice("'\"")
        if q in value:
            q = "'" if q == '"' else '"'
        if q in value:
            return repr(value)
        return q + value.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n") + q
    return repr(value)


def call(d, name, args=(), kwargs=None):
    """Template text of a call."""
    parts = [lit(d, a) for a in args]
    if kwargs:
        parts += ["%s%s%s" % (k, d.choice(["=", " = "]), lit(d, v)) for k, v in kwargs.items()]
    if not parts and d.bool(80):
        return name
    return "%s%s(%s)" % (name, d.choice(["", "", "", " "]) if parts else "", d.choice([",", ", "]).join(parts))


def pipe(d, texts):
    return d.choice([" | ", " | ", "|", "  |  "]).join(texts)


ARGCHARS = gen.ALNUM + "-_./,: ;=()[]+*?^$&<>#@!%'"


BARE = ["log", "re", "sys", "id", "list", "input", "min", "range", "Vlan_1", "traceback", "logging", "print", "name", "_", "all", "data", "line"]


def argtext(d, lo=1, hi=5):
    k = d.int(0, 5)
    if k < 2:
        return d.text(gen.ALNUM, lo, hi)
    if k == 5:
        return d.choice(BARE)
    return d.text(ARGCHARS, lo, hi)
