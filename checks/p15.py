"""P15: group functions run in the order given, each one on what the previous one left."""
from checks.p14 import gen_attr, group, head, text_of, wrap
from vlib import api, gen, grp
from vlib.core import eq, sub

P = "P15"


@gen.cases
def chains(d):
    fields = grp.make_fields(d)
    recs, chain = [], []
    n = d.int(1, 5)
    for i in range(n):
        chain.append(grp.make_transform(d, fields, recs, i == n - 1))
    if d.bool(30):  # functions work on fields of a known kind only
        chain = [f for f in chain if f[0] != "items2dict"]
    attrs, tvars = grp.render(d, chain)
    return {"fields": fields, "chain": chain, "attrs": attrs, "vars": tvars, "path": d.choice(["g*", "a.g*"]),
            "inputs": [[grp.make_record(d, fields) for _ in range(d.int(1, 6))] for _ in range(d.choice([1, 1, 2]))],
            "runs": d.choice([1, 1, 1, 2])}


class Unclaimed(Exception):
    pass


def put(res, path, item):
    for p in path[:-1]:
        res = res.setdefault(p, {})
    res.setdefault(path[-1], []).append(item)


def domain(case):
    """Cases with a meaning: no function needs text where another one left something else."""
    names = [f[0] for f in case["chain"]]
    for i, (n, a, k) in enumerate(case["chain"]):
        before = names[:i]
        if n == "contains_val" and set(before) & {"to_int", "set", "sformat", "del", "items2dict", "expand", "macro", "validate", "to_ip"}:
            return False
        if n == "items2dict" and (set(before) & {"set", "to_int", "expand", "validate"}):
            return False
        if n in ("expand", "to_int") and n in before:  # second to_int truncates floats
            return False
        if n == "cerberus" and set(before) & {"to_ip", "expand", "macro", "validate", "cerberus", "items2dict"}:
            return False
        if n == "validate" and set(before) & {"to_ip", "expand", "macro", "validate", "cerberus", "items2dict"}:
            return False
        if n == "to_int" and set(before) & {"to_ip", "validate"}:  # int() of objects other than text
            return False
        if n == "itemize" and len(a) > 1 and "{{" in a[1] and (a[0] == "name" or set(before) & {"del", "items2dict"}):
            return False
        if n == "macro" and "m_new" in a and i != len(names) - 1:
            return False
        if n == "macro" and {"m_new", "m_drop_up"} <= set(a):
            return False
    return True


@sub(P, "chains", chains, 8000, 300000, "two or more functions in a chain and a record left")
def check_chains(case):
    if not domain(case):
        return None
    t = head(case) + group(case)
    scope = grp.Scope(dict(grp.TVARS, **grp.SCHEMAS, **case["vars"]))
    dflt = grp.defaults(case["fields"])
    p = api.new(template=t)
    for i, r in enumerate(case["inputs"]):
        p.add_input("#%d\n" % i + text_of(case["fields"], r))
    kept = 0
    for run in range(case["runs"]):
        want = []
        for recs in case["inputs"]:
            scope.new_input()
            res = {}
            for rec in recs:
                side = []
                try:
                    item = grp.run(case["chain"], grp.values(case["fields"], rec), dflt, scope, side)
                except grp.Rejected:
                    continue
                kept += 1
                if item is None or any(x is None for _, x in side):
                    return None  # itemized default of None: in the list or not, both fine
                for path, x in side:
                    put(res, path, x)
                put(res, case["path"].rstrip("*").split("."), item)
                if item == {}:  # leaves the list there, with no item for it
                    at = res
                    for part in case["path"].rstrip("*").split("."):
                        at = at[part]
                    at.pop()
            want.append(res)
        p.parse(one=True)
        got = p.result()[0]
        eq(grp.normal(got), want, run=run, template=t, data=case["inputs"])
        p.clear_result()
    names = [f[0] for f in case["chain"]]
    return sorted(set(names)) if len(names) > 1 and kept else None
