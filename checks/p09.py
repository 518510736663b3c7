"""P09: functions that change the value of a match variable: chains of calls against a reference implementation."""
import copy
import re

from vlib import api, funcs, gen
from vlib.core import eq, sub

P = "P09"

VARS = {
    "old_list": ["Gigabit", "Gig", "eth"],
    "map_list": {"Ge": ["Gigabit", "Gig"], "Te": ["Ten"], "": ["-x"]},
    "map_str": {"ge": "Gigabit", "E": "eth", "0": "1"},
    "text_var": "a.c",
    "fmt_var": "<{}>",
    "rx_list": ["^Gig\\w+", "[0-9]+$"],
    "rx_map": {"Ge": ["^Gigabit", "^Gig"], "N": "\\d"},
}
WORDS = ["GigabitEthernet1/1", "Gig2", "TenGigE0/1", "a.c", "abc", "xa.cx", "eth0", "1", "12", "up", "a,b,c", "one.two.three", "-x-", "foo",
         "bar-baz", "a/b/c", "x", "A1", "10.1.2.3", "é", "ß", "<b>", "$1", "ab ab".replace(" ", "_")]


def value(d, phrase):
    k = d.int(0, 3)
    one = lambda: d.choice(WORDS) if k < 3 else gen.word(d)  # noqa: E731
    if not phrase:
        return one()
    return " ".join(one() for _ in range(d.int(1, 4)))


# every entry: name, applicable type, generator of (args, kwargs)
def g_none(d):
    return [], {}


def g_text(d):
    return [funcs.argtext(d)], {}


def g_replaceall(d):
    olds = [d.choice(["old_list", "map_list", "map_str", "Gigabit", "eth", ".", "a", "1", "/", "-x"]) for _ in range(d.int(1, 3))]
    if len(olds) > 1 or d.bool(50):
        olds.insert(0, d.choice(["Ge", "", "Z", "a"]))
    return olds, {}


def g_resub(d):
    old = d.choice(["[0-9]+", "a", "(\\w)(\\w)", "^G", "text_var", "\\.", "[aeiou]", "$", "b*"])
    new = d.choice(["", "Z", "-", "\\1" if "(" in old else "q"])
    k = d.int(0, 3)
    if k == 0:
        return [old, new], {}
    if k == 1:
        return [old, new, d.int(0, 3)], {}
    if k == 2:
        return [old], {"new": new}
    return [], {"old": old, "new": new, "count": d.int(0, 2)}


def g_resuball(d):
    olds = [d.choice(["rx_list", "rx_map", "text_var", "[0-9]", "^a", "o+", "\\W"]) for _ in range(d.int(1, 3))]
    if len(olds) > 1 or d.bool(50):
        olds.insert(0, d.choice(["Ge", "", "Z"]))
    return olds, {}


def g_sformat(d):
    return [d.choice(["{}", "x {} y", "[{0}]", "{0}-{0}", "fmt_var", "plain", "{0[0]}", "{:>6}", "{{}}{}".replace("{{}}", "()")])], {}


def g_index(d):
    return [d.int(0, 5) - d.int(0, 5)], {}


def g_replace(d):
    return [d.choice(["a", "1", "Gig", "e", ".", " "]), d.choice(["", "X", "a"])], {}


def g_split(d):
    sep = d.choice([",", ".", "/", "-", " ", "a"])
    return d.choice([([sep], {}), ([sep], {}), ([sep], {}), ([], {}), ([], {"sep": sep}), ([sep], {"maxsplit": 1}), ([], {"maxsplit": 1, "sep": sep}), ([sep, 1], {})])


def g_strip(d):
    return ([d.choice(["a", "1x", "Gig", ".-", "x"])] if d.bool(70) else []), {}


def g_width(d):
    return [d.int(0, 12)], {}


def g_fill(d):
    return [d.int(0, 12), d.choice("*0-")], {}


STR = {
    "append": g_text, "prepend": g_text, "replaceall": g_replaceall, "resub": g_resub, "resuball": g_resuball,
    "truncate": lambda d: ([d.int(1, 4)], {}), "sformat": g_sformat, "item": g_index, "to_list": g_none, "to_str": g_none, "to_unicode": g_none,
    "copy": lambda d: (["@new"], {}), "let": lambda d: ([funcs.argtext(d)] if d.bool(50) else ["@new", "" if d.bool(15) else funcs.argtext(d)], {}),
    "join": g_text, "upper": g_none, "lower": g_none, "swapcase": g_none, "title": g_none, "capitalize": g_none, "strip": g_strip,
    "lstrip": g_strip, "rstrip": g_strip, "zfill": g_width, "center": g_fill, "ljust": g_fill, "replace": g_replace, "split": g_split,
    "rsplit": g_split, "removeprefix": lambda d: ([d.choice(["Gig", "a", "1"])], {}), "expandtabs": lambda d: ([], d.choice([{}, {"tabsize": 4}])), "casefold": g_none,
    "print": g_none,
}
LIST = {"append": g_text, "prepend": g_text, "item": g_index, "join": lambda d: ([d.choice([",", "", " ", "::"])], {}), "to_list": g_none,
        "copy": lambda d: (["@new"], {}), "to_str": g_none, "let": lambda d: (["@new", funcs.argtext(d)], {}), "print": g_none}


def ref(name, v, args, kwargs, new):
    """Reference: returns the new value; additional fields are put into the dictionary new."""
    a = list(args)
    if name == "append":
        return v + a[0] if isinstance(v, str) else v + [a[0]]
    if name == "prepend":
        return a[0] + v if isinstance(v, str) else [a[0]] + v
    if name in ("replaceall", "resuball"):
        plain = name == "replaceall"
        do = (lambda o, n, s: s.replace(o, n)) if plain else (lambda o, n, s: re.sub(o, n, s))
        repl = a[0] if len(a) > 1 else ""
        for o in a[1:] if len(a) > 1 else a:
            src = VARS.get(o)
            if isinstance(src, list):
                for x in src:
                    v = do(x, repl, v)
            elif isinstance(src, dict):
                for n, xs in src.items():
                    for x in xs if isinstance(xs, list) else [xs]:
                        v = do(x, n, v)
            elif isinstance(src, str):
                v = v.replace(src, repl)
            else:
                v = do(o, repl, v)
        return v
    if name == "resub":
        b = dict(zip(["old", "new", "count"], a), **kwargs)
        old = re.escape(VARS[b["old"]]) if b["old"] in VARS else b["old"]
        return re.sub(old, b["new"], v, count=b.get("count", 1))
    if name == "truncate":
        return " ".join(v.split(" ")[:a[0]])
    if name == "sformat":
        return VARS.get(a[0], a[0]).format(v)
    if name == "item":
        return v[max(-len(v), min(len(v) - 1, a[0]))]
    if name == "to_list":
        return v if isinstance(v, list) else [v]
    if name in ("to_str", "to_unicode"):
        return str(v)
    if name == "join":
        return a[0].join(v) if isinstance(v, list) else v
    if name == "copy":
        new[a[0]] = copy.deepcopy(v)
        return v
    if name == "let":
        if len(a) == 1:
            return a[0]
        new[a[0]] = a[1]
        return v
    if name == "print":
        return v
    return getattr(str, name)(v, *a, **kwargs)


@gen.cases
def chains(d):
    kws = d.shuffle(gen.KEYWORDS)
    used, vars_, lines = set(), {}, []
    for _ in range(d.int(1, 4)):
        variables = []
        nvars = d.choice([1, 1, 2])
        for j in range(nvars):
            phrase = j == nvars - 1 and d.bool(50)
            name = gen.var_name(d, used)
            # representative value drives the types along the chain
            v = value(d, phrase)
            typ, calls, added = v, [], []
            for _ in range(d.choice([1, 1, 2, 2, 3, 4, 5])):
                table = STR if isinstance(typ, str) else LIST
                if typ == "" or typ == []:
                    break
                f = d.choice(sorted(table))
                args, kwargs = table[f](d)
                if args[:1] == ["@new"]:  # at times a field that is there already
                    args[0] = d.choice(added) if added and d.bool(25) else gen.var_name(d, used)
                    added.append(args[0])
                nxt = ref(f, copy.copy(typ), args, kwargs, {})
                if isinstance(nxt, list) and any(not isinstance(x, str) for x in nxt):
                    break
                calls.append([f, args, kwargs])
                typ = nxt
            texts = [funcs.call(d, *c) for c in calls]
            mode = d.int(0, 5)
            if texts and mode < 2:
                cut = d.int(0, len(texts) - 1)
                cv = "chain_%d" % len(vars_)
                vars_[cv] = funcs.pipe(d, texts[cut:]) if mode == 0 else texts[cut:]
                texts = texts[:cut] + [funcs.call(d, "chain", [cv])]
            if phrase:
                texts.insert(0, "ORPHRASE")
            variables.append({"name": name, "phrase": phrase, "calls": calls, "texts": texts,
                              "text": funcs.pipe(d, [name] + texts)})
        records = []
        for _ in range(d.choice([1, 1, 2, 3])):
            records.append([value(d, x["phrase"]) for x in variables])
        lines.append({"kw": kws.pop(), "vars": variables, "records": records})
    return {"lines": lines, "vars": vars_}


@sub(P, "chains", chains, 9000, 300000, "at least one function changed a value or added a field")
def check_chains(case):
    template = ["<vars>\n%s\n</vars>" % gen.xml("\n".join("%s = %r" % kv for kv in dict(VARS, **case["vars"]).items()))]
    data, want, labels = [], {}, set()
    for i, ln in enumerate(case["lines"]):
        template.append("<group name=\"g%d*\">\n%s %s\n</group>" % (
            i, ln["kw"], " ".join("{{ %s }}" % gen.xml(x["text"]) for x in ln["vars"])))
        out = []
        for rec in ln["records"]:
            data.append(" ".join([ln["kw"]] + rec))
            res, bad = {}, False
            for x, v in zip(ln["vars"], rec):
                new = {}
                src = v
                for f, args, kwargs in x["calls"]:
                    if v == "" or v == [] or (isinstance(v, list) and any(not isinstance(y, str) for y in v)):
                        bad = True
                        break
                    try:
                        v = ref(f, v, args, kwargs, new)
                    except (AttributeError, TypeError, IndexError, ValueError):
                        bad = True
                        break
                if bad:
                    break
                res[x["name"]] = v
                res.update(new)
                if v != src or new:
                    labels.update(f for f, _, _ in x["calls"])
            if bad:
                data.pop()
                continue
            out.append(res)
        if out:
            want["g%d" % i] = out
    r = api.parse1("\n".join(data) + "\n#", "\n".join(template))
    eq(r, want, template="\n".join(template), data=data)
    return sorted(labels)
