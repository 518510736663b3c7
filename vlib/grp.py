"""Group functions: generation of chains and their reference meaning on plain dictionaries."""
import copy
import re

from vlib import funcs, gen
from vlib.core import Discard, HarnessError

TVARS = {"q_up": "up", "q_five": 5, "q_txt": "text", "dom": "lab.local", "f1": "variable f1", "name": "variable"}
SCHEMAS = {  # name: {field: rules}; rules of the library kept to ones with an obvious meaning
    "s_allowed": {"f1": {"allowed": ["up", "a", "5"]}},
    "s_required": {"f1": {"required": True}, "f2": {"required": True}},
    "s_regex": {"f1": {"regex": "u.*"}, "name": {"regex": "[a-z]+"}},
    "s_range": {"f2": {"type": "integer", "min": 3, "max": 10}},
    "s_type": {"f1": {"type": "string"}, "f3": {"type": "list"}},
}
MACROS = '''
def m_true(data):
    return True

def m_none(data):
    data["seen"] = "none"

def m_drop_up(data):
    if "up" in [v for v in data.values() if isinstance(v, str)]:
        return False

def m_add(data):
    data["added"] = len(data)
    return data

def m_new(data):
    return {"replaced": sorted(data)}
'''


class Rejected(Exception):
    pass


# ---------------------------------------------------------------- fields

POOL = {
    "str": ["up", "down", "a", "ab", "5", "10", "007", "-3", "1.5", "D", "text", "name", "f1"],
    "int": ["5", "10", "0", "007", "abc", "-3", "5%", "+7"],
    "list": ["1,2", "a,b", "5", "1,a", "up,1.5", "10,ab", "1e3,12:5"],
    "ip": ["10.0.0.1", "2001:db8::1", "bad", "10.0.0.300"],
    "mask": ["24", "64", "255.255.255.0", "99", "0"],
}


def make_fields(d, kinds=None):
    """[{name, type, kw, default}]; the first one starts the record."""
    kws = d.shuffle(gen.KEYWORDS)
    out = [{"name": "name", "type": "str", "kw": kws.pop(), "default": None}]
    names = {"f1": "str", "f2": "int", "f3": "list", "f4": "str", "t.a": "str", "t.b": "int", "ip": "ip", "mask": "mask"}
    for n in kinds or ["f1", "f2"] + d.sample(["f3", "f4"], d.int(0, 2)) + (["t.a", "t.b"] if d.bool(25) else []) + (["ip", "mask"] if d.bool(25) else []):
        f = {"name": n, "type": names[n], "kw": kws.pop(), "default": None}
        if f["type"] in ("str", "int") and d.bool(30):
            f["default"] = d.choice(["D", "up", "5"] if f["type"] == "str" else [0, 5, None, "D"])
            f["hasdef"] = True
        out.append(f)
    return out


def field_template(f, indent=" "):
    fn = {"int": " | to_int", "list": " | split(',')"}.get(f["type"], "")
    if f.get("hasdef"):
        fn += " | default(%s)" % ('"%s"' % f["default"] if isinstance(f["default"], str) else f["default"])
    return "%s%s {{ %s%s }}" % (indent, f["kw"], f["name"], fn)


def make_record(d, fields):
    """[[field index, text]]; the first field first."""
    rec = [[0, d.choice(POOL["str"])]]
    order = d.shuffle(range(1, len(fields))) if d.bool(30) else range(1, len(fields))
    for i in order:
        if d.bool(65):
            rec.append([i, d.choice(POOL[fields[i]["type"]])])
    return rec


def convert(kind, text):
    if kind == "int":
        return int(text) if re.fullmatch(r"[-+]?\d+", text) else text
    if kind == "list":
        return text.split(",")
    return text


def values(fields, rec):
    return {fields[i]["name"]: convert(fields[i]["type"], t) for i, t in rec}


def defaults(fields):
    return {f["name"]: f["default"] for f in fields if f.get("hasdef")}


# ---------------------------------------------------------------- functions


def some(d, names, lo=1, hi=3):
    return d.sample(names, d.int(lo, min(hi, len(names))))


def make_filter(d, fields, recs=()):
    names = [f["name"] for f in fields]
    strs = [f["name"] for f in fields if f["type"] == "str"]
    k = d.int(0, 11)
    if k < 5:
        return [["contains", "containsall", "exclude", "excludeall", "contains"][k], some(d, names + (["nope"] if d.bool(20) else [])), {}]
    if k < 8:
        key = d.choice(names if k != 7 else ["name", "name"] + [f["name"] for f in fields if f["type"] == "list"])
        typ = next(f["type"] for f in fields if f["name"] == key)
        val = d.choice(["q_up", "q_txt"] + list(recs) + POOL[typ if typ in ("str", "int") else "str"])
        if typ == "list":
            val = d.choice(["1", "a", "up", ",", "q_up"])
        if typ == "int" and val not in TVARS and val not in recs and d.bool(60):
            val = d.choice([5, 10, 0, 7])
        if typ == "int" and d.bool(20):
            val = "q_five"
        return [["equal", "exclude_val", "contains_val"][k - 5], [key, val], {}]
    if k == 8:
        return ["void", [], {}] if d.bool(20) else ["str_to_unicode", [], {}]
    if k < 11:
        kw = {}
        if d.bool(40):
            kw["allow_unknown"] = d.bool(50)
        if d.bool(35):
            kw["add_errors"] = d.bool(70)
        return ["cerberus", [d.choice(list(SCHEMAS))], kw]
    return ["macro", some(d, ["m_true", "m_drop_up", "m_none"], 1, 2), {}]


def make_transform(d, fields, recs, last):
    names = [f["name"] for f in fields]
    have = {f["type"] for f in fields}
    k = d.int(0, 15)
    if k < 2:
        kw = {"intlist": True} if d.bool(40) else {}
        return ["to_int", some(d, names + ["nope"]) if d.bool(60) else [], kw]
    if k < 4:
        parts = some(d, ["name", "f1", "f2", "q_up", "dom", "missing"] + list(recs), 1, 3)
        text = d.choice(["-", " ", "", "x:"]).join("{%s}" % p for p in parts)
        return ["sformat", [], {"string": text, "add_field": d.choice(["out", "f1", "info"])}]
    if k == 4:
        tgt = d.choice(["tgt", "f1", "f4"])
        args = [d.choice(["q_up", "q_five", "plain", "nothing"] + list(recs)), tgt]
        return ["set", args if d.bool(80) else args[:1], {"default": "dflt"} if d.bool(30) else {}]
    if k < 7:
        src = d.choice(names)
        tgt = d.choice(["r_one", "r_two", "r_one", "r_two", "f1", "name"])
        recs.append(tgt)
        return ["record", [src, tgt], {}]
    if k == 7:
        return ["del", some(d, names + ["nope"]), {}]
    if k == 8:
        return ["expand", [], {}]
    if k == 9:
        return ["items2dict", ["name", "f1"], {}]
    if k == 10 and "ip" in have:
        return ["to_ip", ["ip", "mask"], {}] if d.bool(50) else ["to_ip", [], {"ip_key": "ip", "mask_key": "mask"}]
    if k < 13:
        return ["macro", some(d, ["m_add", "m_none", "m_true", "m_new", "m_drop_up"] if last else ["m_add", "m_none", "m_true"], 1, 3), {}]
    if k == 13:
        kw = {"result": d.choice(["valid", "ok"])}
        if d.bool(40):
            kw["info"] = d.choice(["{name} is {f1}", "check {name}"])
        if d.bool(40):
            kw["errors"] = "errs"
        if d.bool(30):
            kw["allow_unknown"] = d.bool(50)
        return ["validate", [d.choice(list(SCHEMAS))], kw]
    if last:
        path = d.choice([None, "items", "top.items", "top.items*", "top.items**", "by.{{ name }}"])
        return ["itemize", [d.choice(["name", "f1", "f2"])] + ([path] if path else []), {}]
    return make_filter(d, fields, recs)


def check_schema(schema, data, allow_unknown):
    """Fields that break the schema."""
    bad = set()
    if not allow_unknown:
        bad |= {k for k in data if k not in schema}
    for field, rules in schema.items():
        if field not in data:
            if rules.get("required"):
                bad.add(field)
            continue
        v = data[field]
        if v is None:  # not nullable
            bad.add(field)
            continue
        if "type" in rules and not {"integer": type(v) is int, "string": isinstance(v, str), "list": isinstance(v, list)}[rules["type"]]:
            bad.add(field)
            continue
        if "allowed" in rules:
            # the library checks the items of iterables, and text as a whole
            if isinstance(v, list):
                if any(x not in rules["allowed"] for x in v):
                    bad.add(field)
            elif v not in rules["allowed"]:
                bad.add(field)
        if "regex" in rules and isinstance(v, str) and not re.fullmatch(rules["regex"], v):
            bad.add(field)
        if "min" in rules and isinstance(v, (int, float)) and v < rules["min"]:
            bad.add(field)
        if "max" in rules and isinstance(v, (int, float)) and v > rules["max"]:
            bad.add(field)
    return bad


ERRORS = "<validation errors>"  # text of errors is the library's business; the fields are compared


class Scope:
    """Variables of one run of a parser."""

    def __init__(self, tvars):
        self.tvars, self.glob = tvars, {}
        self.new_input()

    def new_input(self):
        self.vars = copy.deepcopy(self.tvars)


def number(v):
    """Value of text the way int() or float() see the texts generated here."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, str):
        if re.fullmatch(r"[-+]?\d+", v):
            return int(v)
        if re.fullmatch(r"[-+]?(\d+\.\d+|\d+e\d+)", v):
            return float(v)
    return v


def fmt(text, ns):
    out, missing = [], []

    def put(m):
        if m.group(1) not in ns:
            missing.append(m.group(1))
            return ""
        return str(ns[m.group(1)])

    out = re.sub(r"\{(\w+)\}", put, text)
    return None if missing else out


def apply(fn, data, dflt, scope, side):
    """Data after function; raises Rejected. side: [(path, item)] of values saved elsewhere."""
    name, args, kw = fn

    def matched(k):
        return k in data and not (k in dflt and dflt[k] == data[k])

    def var(v):
        return scope.vars.get(v, v) if isinstance(v, (str, int)) else v

    if name == "contains":
        ok = any(matched(a) for a in args)
    elif name == "containsall":
        ok = all(matched(a) for a in args)
    elif name == "exclude":
        ok = not any(matched(a) for a in args)
    elif name == "excludeall":
        ok = not all(matched(a) for a in args)
    elif name == "equal":
        ok = data.get(args[0]) == var(args[1])
    elif name == "exclude_val":
        ok = not (args[0] in data and data[args[0]] == var(args[1]))
    elif name == "contains_val":
        if not isinstance(var(args[1]), str):  # a recorded list
            raise Discard
        ok = args[0] in data and var(args[1]) in data[args[0]]
    elif name == "void":
        ok = False
    elif name == "cerberus":
        bad = check_schema(SCHEMAS[args[0]], data, kw.get("allow_unknown", True))
        ok = not bad
        if bad and kw.get("add_errors"):
            data["validation_errors"] = [ERRORS] + sorted(bad)
            ok = True
    elif name == "macro":
        for m in args:
            if m == "m_none":
                data["seen"] = "none"
            elif m == "m_drop_up" and any(isinstance(v, str) and v == "up" for v in data.values()):
                raise Rejected
            elif m == "m_add":
                data["added"] = len(data)
            elif m == "m_new":
                data = {"replaced": sorted(data)}
        ok = True
    elif name == "str_to_unicode":
        ok = True
    elif name == "to_int":
        for k in args or list(data):
            if k in data:
                data[k] = number(data[k])
                if kw.get("intlist") and isinstance(data[k], list):
                    data[k] = [number(x) for x in data[k]]
        ok = True
    elif name == "sformat":
        text = fmt(kw["string"], {**scope.glob, **scope.vars, **data})
        if text is not None:
            data[kw["add_field"]] = text
        ok = True
    elif name == "set":
        src = args[0]
        tgt = args[1] if len(args) > 1 else src
        for place in (scope.vars, scope.glob):
            if src in place:
                data[tgt] = place[src]
                break
        else:
            data[tgt] = kw.get("default", src)
        ok = True
    elif name == "record":
        if args[0] in data:
            scope.vars[args[1]] = scope.glob[args[1]] = data[args[0]]
        ok = True
    elif name == "del":
        for k in args:
            data.pop(k, None)
        ok = True
    elif name == "expand":
        out = {}
        for k, v in data.items():
            at = out
            for part in k.split(".")[:-1]:
                at = at.setdefault(part, {})
            at[k.split(".")[-1]] = v
        data = out
        ok = True
    elif name == "items2dict":
        ok = args[0] in data and args[1] in data
        if ok:
            v = data.pop(args[1])
            data[data.pop(args[0])] = v
    elif name == "to_ip":
        import ipaddress

        if "ip" in data and "mask" in data:
            try:
                data["ip"] = ipaddress.ip_interface("%s/%s" % (data["ip"], data["mask"]))
            except ValueError:
                pass
        ok = True
    elif name == "validate":
        bad = check_schema(SCHEMAS[args[0]], data, kw.get("allow_unknown", True))
        data[kw["result"]] = not bad
        if kw.get("info"):
            text = fmt(kw["info"], {**scope.glob, **scope.vars, **data})
            if text is not None:
                data["info"] = text
        if kw.get("errors"):
            data["errs"] = [ERRORS] + sorted(bad)
        ok = True
    elif name == "itemize":
        ok = args[0] in data
        if ok and len(args) > 1:
            path = args[1].rstrip("*").split(".")
            path = [str(data.pop("name")) if p == "{{ name }}" else p for p in path]
            if args[0] == "name" and "{{ name }}" in args[1]:
                raise HarnessError("not generated")
            side.append((path, data[args[0]]))
        elif ok:
            data = data[args[0]]
    else:
        raise HarnessError(name)
    if not ok:
        raise Rejected
    return data


def normal(x):
    """Result with texts of validation errors out of it."""
    if isinstance(x, dict):
        return {k: [ERRORS] + sorted(v) if k in ("validation_errors", "errs") and isinstance(v, dict) else normal(v) for k, v in x.items()}
    if isinstance(x, list):
        return [normal(i) for i in x]
    return x


def run(chain, data, dflt, scope, side):
    data = dict(copy.deepcopy(data))
    for k, v in dflt.items():
        data.setdefault(k, copy.deepcopy(v))
    for fn in chain:
        data = apply(fn, data, dflt, scope, side)
    return data


# ---------------------------------------------------------------- rendering


def lit(d, v):
    if isinstance(v, str) and re.fullmatch(r"[a-z]\w*", v) and d.bool(40):
        return v
    return funcs.lit(d, v) if not isinstance(v, str) else repr(v)


def call_args(d, fn):
    name, args, kw = fn
    if name == "macro" and d.bool(50):
        args = [", ".join(args)]
    if name in ("sformat",) and d.bool(40):
        args, kw = [kw["string"], kw["add_field"]], {}
    return ", ".join([lit(d, a) if not (name == "macro" and "," in a) else repr(a) for a in args] + ["%s=%s" % (k, repr(v) if isinstance(v, str) else v) for k, v in kw.items()])


def render(d, chain):
    """(attributes text, {template variables of chains})"""
    if not chain:
        return "", {}
    names = [f[0] for f in chain]
    parts = [[n, call_args(d, f)] for n, f in zip(names, chain)]
    k = d.int(0, 3)
    if k == 0 and len(set(names)) == len(names):
        return "".join(' %s="%s"' % (n, a) for n, a in parts), {}
    texts = ["%s(%s)" % (n, a) if a or d.bool(30) else n for n, a in parts]
    attr = d.choice(["chain", "functions"])
    if k == 1:
        return ' %s="the_chain"' % attr, {"the_chain": " | ".join(texts)}
    if k == 2:
        cut = d.int(0, len(texts))
        items = [" | ".join(texts[:cut])] if cut else []
        return ' %s="the_chain"' % attr, {"the_chain": items + texts[cut:]}
    return ' %s="%s"' % (attr, " | ".join(texts)), {}
