"""P30: the command line tool, quick_parse and all the ways to give templates and data say the same."""
import ast
import contextlib
import io
import json
import logging
import os
import subprocess
import sys

from vlib import api, gen
from vlib.core import REPO, ensure, eq, sub

P = "P30"
WORDS = ["a", "b1", "Gi0/1", "x'y", 'q"z', "é", "10", "1.5", "True", "null", "- k", "k: v", "#c", "%d", "{x}"]


def texts(d, n=None):
    out = []
    for i in range(n if n is not None else d.choice([1, 1, 2, 3])):
        rows = []
        for _ in range(d.int(0, 6)):
            rows.append("interface %s" % d.choice(WORDS))
            if d.bool(60):
                rows.append(" mtu %d" % d.int(0, 9999))
            if d.bool(20):
                rows.append(d.choice(["!", "", "vlan %d" % d.int(1, 99)]))
        rows.append("host h%d" % i)  # no two texts are the same
        out.append("\n".join(rows) + "\n")
    return out


GROUP = """<group name="%s">
interface {{ name | PHRASE | _start_ }}
interface {{ name | _start_ }}
 mtu {{ mtu%s }}
{{ site | set("site") }}
</group>
<group name="hosts*">
host {{ host }}
</group>"""


def group_text(d):
    return GROUP % (d.choice(["interfaces", "interfaces*", "{{ name }}", "s.{{ site }}.i*"]), d.choice(["", " | to_int"]))


def one_template(d, name=None, results=None, url=None):
    attrs = "".join(' %s="%s"' % kv for kv in (("name", name), ("results", results)) if kv[1])
    tag = "<input load=\"python\">\nurl = %r\n</input>\n" % url if url else ""
    return "<template%s>\n%s%s\n</template>" % (attrs, tag, group_text(d))


@gen.cases
def gen_cli(d):
    names = []
    files = d.choice(["text", "file", "directory", "inputs"])
    url = "data" if files == "inputs" else None
    if d.bool(40):
        template = "%s%s" % ("<input load=\"python\">\nurl = %r\n</input>\n" % url if url else "", group_text(d))
    else:
        n = d.choice([1, 2, 3])
        names = ["t%d" % i for i in range(n)]
        template = "\n".join(one_template(d, x, d.choice(["per_input", "per_template", None]), url) for x in names)
        if n > 1:
            template = "<template>\n%s\n</template>" % template
    vars_ = {}
    for k in d.sample(["site", "other", "k3"], d.int(0, 3)):
        vars_[k] = d.choice(["s1", "it's", 'say "x"', "é", 5, None, True, ["a", "b'c"], {"k": "v's"}, "back\\slash", "{{ x }}"])
    if isinstance(vars_.get("site"), (list, dict)) or "site" not in vars_:
        vars_["site"] = "s2"
    style = d.choice(["json", "json", "quotes", None])
    if style == "quotes" and any(c in json.dumps(vars_) for c in "'\\"):
        style = "json"
    how = d.choice(["file", "file", "text", "python"])
    return {
        "template": template, "names": names, "texts": texts(d, 1 if files == "text" else None), "files": files,
        "vars": vars_, "style": style, "how": how, "long": d.bool(40),
        "format": d.choice(["json", "yaml", "raw", "pprint", "JSON", "Yaml", "RAW", "", "xml"]),
        "structure": d.choice(["", "list", "dictionary", "flat_list"]) if names else d.choice(["", "list", "flat_list"]),
        "out": d.sample(names, d.int(0, len(names))) if names and d.bool(40) else [],
        "mode": d.choice(["", "", "", "--one"]), "outside": d.int(0, 39) == 1,
        "terminal": d.int(0, 9) == 0,
    }


def run_inside(args):
    from ttp import ttp as module  # the class; its module has the tool

    tool = sys.modules[module.__module__].cli_tool
    out, argv = io.StringIO(), sys.argv
    sys.argv = ["ttp"] + args
    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(out):
            tool()
    finally:
        sys.argv = argv
        logging.disable(level)
        logging.getLogger("ttp.ttp").setLevel(logging.CRITICAL)
    return out.getvalue()


def run_outside(args, cwd):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", "from ttp.ttp import cli_tool; cli_tool()"] + args, env=env, cwd=cwd, capture_output=True)
    eq(r.returncode, 0, "exit of the tool", errors=r.stderr.decode()[-1500:], args=args)
    return r.stdout.decode("utf-8")


def loads(text, form):
    import yaml

    form = form.lower()
    if form == "json" or form == "xml":
        return json.loads(text)
    if form == "yaml":
        return yaml.safe_load(text)
    return ast.literal_eval(text)


@sub(P, "cli", gen_cli, 2500, 60000, "the tool printed results that are not empty")
def check_cli(case):
    long, args = case["long"], []

    def opt(short, full, value):
        args.extend([full if long else short, value])

    template = case["template"]
    if case["terminal"]:
        extra = '\n<output name="o1" format="json" returner="terminal"/>\n'
        template = template[: template.rindex("</template>")] + extra + "</template>" if len(case["names"]) == 1 else template
    printed = template != case["template"]
    with api.Scratch() as d:
        base = os.path.join(d, "base") + os.sep
        where = os.path.join(base, "data")
        os.makedirs(where)
        for i, t in enumerate(case["texts"]):
            api.write(os.path.join(where, "f%d.txt" % i), t)
            if case["files"] == "file":
                break
        data = {"text": case["texts"][0], "file": os.path.join(where, "f0.txt"), "directory": where, "inputs": None}[case["files"]]
        if data:
            opt("-d", "--data", data)
        else:
            opt("-dp", "--data-prefix", base)
        if case["how"] == "text":
            opt("-t", "--template", template)
        elif case["how"] == "file":
            api.write(os.path.join(d, "t.txt"), template)
            opt("-t", "--template", os.path.join(d, "t.txt"))
        else:
            api.write(os.path.join(d, "t.py"), "other = 'nothing {{ x }}'\nmine = %r\n" % template)
            opt("-t", "--template", os.path.join(d, "t.py"))
            opt("-tn", "--template-name", "mine")
        if case["style"]:
            text = json.dumps(case["vars"])
            opt("-v", "--vars", text.replace('"', "'") if case["style"] == "quotes" else text)
        if case["format"]:
            opt("-o", "--outputter", case["format"])
        if case["structure"]:
            opt("-s", "--structure", case["structure"])
        if case["out"]:
            opt("-ot", "--out-template", ", ".join(case["out"]))
        if case["mode"]:
            args.append(case["mode"])
        got = run_outside(args, d) if case["outside"] else run_inside(args)
        p = api.new(base_path=base if not data else "", vars=dict(case["vars"]) if case["style"] else {})
        p.add_template(template)
        if data:
            p.add_input(data, template_name="_all_")
        with contextlib.redirect_stdout(io.StringIO()) as out:
            p.parse(one=True)
        want = p.result(structure=case["structure"] or "list", templates=case["out"] or None)
    got_prefix = out.getvalue()
    ensure(got.startswith(got_prefix), "outputs of the template are printed", got=got, expected=got_prefix)
    got = got[len(got_prefix):]
    if not case["format"]:
        eq(got, "", "text printed without a format asked for", args=args)
        return ["terminal"] if printed and got_prefix.strip() else None
    if case["format"].lower() == "yaml":
        want = json.loads(json.dumps(want))
    eq(loads(got, case["format"]), want, "results printed", args=args, printed=got)
    return [case["files"], case["how"]] if want and any(want) else None


# --------------------------------------------------------------------------- sources of a template
@gen.cases
def gen_sources(d):
    shape = d.choice(["groups", "lines", "template", "templates"])
    if shape == "lines":
        template = "\ninterface {{ name | PHRASE }}\n mtu {{ mtu }}\n" + d.choice(["", "## note\n"])
    elif shape == "groups":
        template = group_text(d)
    elif shape == "template":
        template = one_template(d, d.choice([None, "t0"]), d.choice(["per_input", "per_template", None]))
    else:
        template = "<template>\n%s\n</template>" % "\n".join(one_template(d, "t%d" % i) for i in range(2))
    if d.bool(10):  # longer than any path
        template += "\n" + "## long line of a comment\n" * 300 if shape == "lines" else "\n" + "<doc>\n%s\n</doc>" % ("long line\n" * 600) if shape == "groups" else ""
    return {
        "template": template, "texts": texts(d) if d.bool(94) else [d.choice(["\n", " \n", "\n\n"])], "vars": {"site": d.choice(["s1", "s'2", 7])},
        "structure": d.choice(["list", "dictionary", "flat_list"]),
        "crlf": d.bool(15),
    }


@sub(P, "sources", gen_sources, 2500, 60000, "results are not empty")
def check_sources(case):
    from ttp import quick_parse

    template, joined = case["template"], "\n".join(case["texts"])
    kw = {"structure": case["structure"]}
    results = {}

    def single(key, **given):
        p = api.new(vars=dict(case["vars"]), **given)
        p.parse(one=True)
        results[key] = p.result(**kw)

    with api.Scratch() as d:
        text = template.replace("\n", "\r\n") if case["crlf"] else template
        api.write(os.path.join(d, "dir", "t.txt"), text)
        api.write(os.path.join(d, "dir", "sub", "data.txt"), joined)
        path = os.path.join(d, "dir", "t.txt")
        single("text", data=joined, template=template)
        single("file", data=joined, template=path)
        single("data file", data=os.path.join(d, "dir", "sub", "data.txt"), template=template)
        single("data folder", data=os.path.join(d, "dir", "sub"), template=template)
        cwd = os.getcwd()
        os.chdir(os.path.join(d, "dir"))
        try:
            single("relative", data=os.path.join("sub", "data.txt"), template="t.txt")
        finally:
            os.chdir(cwd)
        os.environ["TTP_TEMPLATES_DIR"] = os.path.join(d, "dir")
        try:
            single("templates dir", data=joined, template="t.txt")
            api.write(os.path.join(d, "dir", "k", "u.txt"), text)
            single("templates dir, nested", data=joined, template=os.path.join("k", "u.txt"))
        finally:
            del os.environ["TTP_TEMPLATES_DIR"]
        p = api.new(vars=dict(case["vars"]))
        p.add_template(template)
        p.add_input(joined, template_name="_all_")
        p.parse(one=True)
        results["added"] = p.result(**kw)
        p = api.new()
        p.add_vars(dict(case["vars"]))
        p.add_template(path)
        p.add_vars(dict(case["vars"]))
        p.set_input(os.path.join(d, "dir", "sub", "data.txt"), template_name="_all_")
        p.parse()
        results["set"] = p.result(**kw)
        options = {"ttp_kwargs": {"vars": dict(case["vars"]), "log_level": "CRITICAL"}, "result_kwargs": dict(kw)}
        results["quick_parse"] = quick_parse(joined, template, **options)
        results["quick_parse of files"] = quick_parse(data=os.path.join(d, "dir", "sub", "data.txt"), template=path, parse_kwargs={"one": True}, **options)
    for k, v in results.items():
        eq(v, results["text"], "results of " + k, template=template, text=joined)
    ensure(type(results["text"]) is (dict if case["structure"] == "dictionary" else list), "structure", got=results["text"])
    return ["sources"] if results["text"] and any(results["text"]) else None
