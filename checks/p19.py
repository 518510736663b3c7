"""P19: results do not depend on how parsing is run - one or several processes, per input or per template, again."""
import copy
import os

from checks import p03, p14, p15
from vlib import api, gen, grp, store, tree
from vlib.core import Discard, ensure, eq, sub

P = "P19"

# ------------------------------------------------------------------ per_template


@gen.cases
def combined(d):
    case = p03.make_paths(d, d.int(1, 4))
    case["names"] = [d.choice(["one", "two"]) for _ in case["data"]]
    case["again"] = d.bool(30)
    return case


def with_results(case, method):
    """Template text of the case with a results method."""
    t = case["template"]
    if t.startswith("<template"):
        return t.replace("<template", '<template results="%s"' % method, 1)
    return '<template results="%s">\n%s\n</template>' % (method, t)


@sub(P, "per template", combined, 4000, 150000, "records of two inputs or more in one results item")
def check_combined(case):
    order = [i for n in dict.fromkeys(case["names"]) for i, x in enumerate(case["names"]) if x == n]
    whole = store.Store(case["vars"], case["key_to_int"])
    each = []
    for i in order:
        whole.cache = {}
        one = store.Store(case["vars"], case["key_to_int"])
        for kind, items, rec in case["events"][i]:
            getattr(whole, kind)(items, rec)
            getattr(one, kind)(items, rec)
        each.append(one.item())
    got = {}
    for method in ("per_template", "per_input"):
        p = api.new(vars=dict(case["vars"]), dynamic_path_key_to_int=case["key_to_int"])
        t = with_results(case, method)
        p.add_template(t)
        for i, data in enumerate(case["data"]):
            p.add_input("#%d\n%s" % (i, data), input_name=case["names"][i])
        p.parse(one=True)
        if case["again"]:
            first = copy.deepcopy(p.result())
            p.parse(one=True)
            if method == "per_template":
                eq(p.result(), first, "results of the second parse", template=t)
            else:
                eq(p.result(), [first[0] + first[0]], "results of the second parse", template=t)
            p.clear_result()
            p.parse(one=True)
        got[method] = p.result()
    eq(got["per_template"], [whole.item()], "per_template", template=t, data=case["data"], order=order, key_to_int=case["key_to_int"])
    eq(got["per_input"], [each], "per_input", template=t, data=case["data"])
    if len(case["data"]) == 1:
        eq(got["per_input"][0][0], got["per_template"][0], template=t)
    return ["combined"] + (["again"] if case["again"] else []) if sum(bool(e) for e in case["events"]) > 1 else None


# ------------------------------------------------------------------ processes


def plain_text(d, n, m):
    """Lines of the template of mixed()."""
    out = ["#%d" % n]
    if d.bool(60):
        out.append("sw%d#show run" % n)
    for _ in range(d.int(0, m)):
        k = d.int(0, 6)
        w = d.choice(["a", "b", "ab", "key1", "key2", "10.0.0.1"])
        if k < 3:
            out.append("kone %s" % w)
            out += [" ktwo %s" % d.choice(["x", "y", "zz"]) for _ in range(d.int(0, 2))]
        elif k < 5:
            out.append("kthree %s" % w)
        elif k == 6:
            out.append("kfive %s" % w)
            out += [" kplace %s" % d.choice(["p", "q"])] if d.bool(70) else []
        else:
            out.append("kfour %s %s" % (w, d.choice(["1", "2", "33"])))
    return "\n".join(out)


MATCH = ["upper", "lookup('tab', add_field='lk')", "macro('m_text')", "append('tvar')", "to_list", "c_match", "replaceall('a', 'tvar')", "contains('a', 'key')",
         "let('fixed', 'tvar')", "void", "count(var='n')", "m_unknown", "boom", "macro('m_boom')", "to_ip", "record('r1')", "rlookup('rtab', add_field='rl')",
         "gpvlookup('gtab', add_field='gp')", "is_digit", "joinmatches(':')", "lookup(template='src.t', add_field='tl')"]
GROUP = ["macro('m_group')", "c_group", "contains('y')", "sformat('{x}-{tvar}', add_field='sf')", "set('host')", "lookup('x', name='tab', add_field='gl')", "itemize('x', 'items')",
         "delete('y')", "upper_all", "to_int", "boom", "expand", "record('x', 'rx')", "void", "lookup('x', template='src.t', add_field='gt')"]
INPUT = ["macro('m_input')", "c_input", "boom", "extract_commands('show run')"]
OUTPUT = ["macro('m_output')", "c_output", "dict_to_list", "boom"]


@gen.cases
def mixed(d):
    kind = d.choice(["mixed", "mixed", "mixed", "filter", "chain", "paths", "tree"])
    case = {"kind": kind, "n": d.choice([1, 2, 2, 3, 5, 12])}
    if kind == "filter":
        case["case"] = p14.flat.fn(d)
    elif kind == "chain":
        case["case"] = p15.chains.fn(d)
    elif kind == "paths":
        case["case"] = p03.make_paths(d, case["n"])
    elif kind == "tree":
        tops = tree.make_tree(d)
        datas = []
        for i in range(case["n"]):
            lines = []
            for g in tops:
                lines += tree.instance(d, g, [8])["text"]
            datas.append("\n".join(lines))
        case["case"] = {"template": "\n".join(tree.template(g) for g in tops), "data": datas}
    if kind in ("filter", "chain"):
        sub_ = case["case"]
        while len(sub_["inputs"]) < case["n"]:
            sub_["inputs"].append([grp.make_record(d, sub_["fields"]) for _ in range(d.int(1, 4))])
    if kind == "mixed":
        pick = lambda pool, n: [x for x in d.sample(pool, d.choice(n)) if x != "boom" and "m_boom" not in x or d.bool(25)]  # noqa: E731
        case["match"] = [pick(MATCH, [0, 1, 1, 2, 3]) for _ in range(3)]
        case["group"] = pick(GROUP, [0, 0, 1, 2])
        case["input"] = pick(INPUT, [0, 0, 0, 1])
        case["over"] = d.bool(25)
        case["gout"] = pick(OUTPUT, [0, 0, 1]) if d.bool(40) else None
        case["gout2"] = pick(OUTPUT, [0, 1]) if case["gout"] is not None and d.bool(40) else None
        case["out"] = pick(OUTPUT, [0, 0, 1])
        case["data"] = [[plain_text(d, i, 6), d.choice(["tag", "add", "add", "file"]), d.choice(["in1", "in2", "Default_Input"])] for i in range(case["n"])]
        case["getters"] = d.bool(60)
        case["templates"] = d.choice([1, 1, 2])
        case["save_vars"] = d.bool(30)
        case["old_macro"] = d.bool(40)
        case["src"] = d.choice([None, "per_input", "per_template"])
    case["threshold"] = d.choice([0, 100, 10 ** 6])
    return case


def c_match(data, *args, **kwargs):
    return "<%s>" % data, {"cm": True}


def c_group(data, *args, **kwargs):
    data["cg"] = len(data)
    return data, None


def c_input(data, *args, **kwargs):
    return data.replace("kthree a", "kthree c_input"), None


def c_output(data, *args, **kwargs):
    return {"c_out": data} if isinstance(data, list) else [data, "c_out"]


def boom(data, *args, **kwargs):
    raise KeyError("boom")


def upper_all(data, *args, **kwargs):
    return {k: str(v).upper() for k, v in data.items()}, True


def c_var(text, name):
    return "%d chars" % len(text)


FUNCS = [(c_match, "match"), (c_group, "group"), (c_input, "input"), (c_output, "output"), (upper_all, "group"), (c_var, "variable"),
         (boom, "match"), (boom, "group"), (boom, "input"), (boom, "output")]

MACRO = """
COUNT = {'n': 1}
def m_text(data):
    return data + _ttp_['vars'].get('tvar', '?'), {'mt': COUNT['n']}
def m_group(data):
    data['mg'] = helper(len(data))
def helper(x):
    return 'h%s' % x
def m_input(data):
    return data.replace('ktwo x', 'ktwo m_input')
def m_output(data):
    return [data, 'm_out']
def m_boom(data):
    return {}['m_boom']
"""


def mixed_template(case, folder):
    attr = lambda name, fs: ' %s="%s"' % (name, " | ".join(fs)) if fs else ""  # noqa: E731
    chain = lambda fs: "".join(" | " + f for f in fs)  # noqa: E731
    t = ["<vars%s>\ntvar = 'TV'\nnum = [1, 2]\n%s</vars>" % (' name="saved"' if case["save_vars"] else "", "host = 'gethostname'\nfname = 'getfilename'\nsize = 'c_var'\n" if case["getters"] else "host = 'H'\n"),
         '<lookup name="tab" load="python">\n{"key1": {"k": "v1"}, "a": "va", "KEY2": 5, "b": ["l"]}\n</lookup>',
         '<lookup name="rtab" load="python">\n{"key": "is key", "10": "ten"}\n</lookup>',
         '<lookup name="gtab" load="python">\n{"p1": ["key*"], "p2": ["a*", "b"]}\n</lookup>',
         # the last definition of a macro is the one in use
         "<macro>\ndef m_text(data):\n    return 'old'\ndef helper(x):\n    return 'old'\n</macro>" if case.get("old_macro") else "",
         "<macro>%s</macro>" % MACRO]
    for i, (text, how, name) in enumerate(case["data"]):
        if how == "tag":
            t.append("<input name='%s' load='text'%s>\n%s\n</input>" % (name, attr("functions", case["input"]), text))
        elif how == "file":
            path = os.path.join(folder, "f%d.txt" % i)
            api.write(path, text)
    m = case["match"]
    t.append('<group name="g*"%s%s>\nkone {{ x%s }}\n ktwo {{ y%s }}\n {{ hst | set("host") }}\n%s</group>' % (
        attr("functions", case["group"]), "" if case["gout"] is None else ' output="o1"' if case.get("gout2") is None else ' output="o2, o1"', chain(m[0]), chain(m[1]), " {{ file | set(\"fname\") }}\n" if case["getters"] else ""))
    t.append('<group name="h.{{ z }}">\nkthree {{ z%s }}\n</group>' % chain(m[2]))
    t.append('<group name="k**">\nkfour {{ w }} {{ num | to_int }}\n</group>')
    t.append('<group name="at.{{ place }}">\nkfive {{ w }}\n kplace {{ place }}\n</group>')
    if case["gout"] is not None:
        t.append('<output name="o1"%s/>' % attr("functions", case["gout"]))
    if case.get("gout2") is not None:
        t.append('<output name="o2"%s/>' % attr("functions", case["gout2"]))
    if case["out"]:
        t.append("<output%s/>" % attr("functions", case["out"]))
    return "\n".join(t)


SRC = """<template name="src" results="%s">
<input load="text">
entry key1 one two
entry a three
</input>
<group name="t.{{ k }}">
entry {{ k }} {{ e | ORPHRASE }}
</group>
</template>"""


def run(case, folder, how):
    kind = case["kind"]
    if kind == "mixed":
        p = api.new()
        for fun, scope in FUNCS:
            p.add_function(fun, scope)
        if case.get("over"):  # in place of functions of the same names
            p.add_function(c_match, "match", name="append")
            p.add_function(c_group, "group", name="delete")
            p.add_function(c_input, "input", name="extract_commands")
        text = mixed_template(case, folder)
        if case.get("src"):
            p.add_template(SRC % case["src"])
        names = ["_root_template_", "other"][:case["templates"]]
        for nm in names:
            p.add_template(text, template_name=nm)
        for i, (data, src, name) in enumerate(case["data"]):
            if src != "tag":
                for nm in names:
                    p.add_input(os.path.join(folder, "f%d.txt" % i) if src == "file" else data, input_name=name, template_name=nm)
    else:
        c = case["case"]
        if kind in ("filter", "chain"):
            text = p14.head(c) + p14.group(c)
            datas = [p14.text_of(c["fields"], r) for r in c["inputs"]]
        else:
            text, datas = c["template"], c["data"]
        p = api.new(vars=dict(c.get("vars") or p03.TVARS), dynamic_path_key_to_int=bool(c.get("key_to_int")))
        p.add_template(text)
        for i, x in enumerate(datas):
            p.add_input("#%d\n%s" % (i, x))
    p.multiproc_threshold = case["threshold"]
    try:
        p.parse(**how)
    except Exception as e:
        return "raised", type(e).__name__ + ": " + str(e), text
    first = copy.deepcopy(p.result())
    p.clear_result()
    try:
        p.parse(**how)
    except Exception as e:
        return "raised", type(e).__name__ + ": " + str(e), text
    eq(p.result(), first, "second parse of the same parser", how=how, template=text)
    return "results", first, text


@sub(P, "processes", mixed, 350, 15000, "two or more texts parsed to results that are not empty, or an error raised")
def check_processes(case):
    if case["kind"] in ("filter", "chain"):
        if not p15.domain(case["case"]) or any(f[0] in ("record", "set") for f in case["case"]["chain"]):
            raise Discard()
    with api.Scratch() as folder:
        kind, want, text = run(case, folder, {"one": True})
        for how in ({"multi": True}, {}):
            kind2, got, _ = run(case, folder, how)
            ensure(kind == kind2, "one way raises an error and another does not", one=want, other=got, how=how, template=text)
            if kind == "raised":
                name = want.split(":")[0]
                ensure(name in got, "another error is raised", one=want, other=got, how=how, template=text)
            else:
                eq(grp.normal(got), grp.normal(want), "results of %s" % (how or "default"), template=text)
    if kind == "raised":
        return ["raised"]
    return [case["kind"]] if case["n"] > 1 and any(w for w in want[-1]) else None
