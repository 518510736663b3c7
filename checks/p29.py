"""P29: any text can be parsed with any valid template, and the same way every time."""
import copy
import json
import logging
import os
import re
import subprocess
import sys
from xml.sax.saxutils import quoteattr

from vlib import api, gen
from vlib.core import REPO, ensure, eq, sub

P = "P29"
LIT = "interface vlan mtu peer ip route state area".split()
VARS = "name a b c x y".split()
TEXTF = ["append('x')", "prepend('y')", "replaceall('a', 'b')", "replaceall('1')", "resub('a', 'b')", "resuball('[0-9]', 'N')", "truncate(1)", "upper", "lower", "strip('a')", "sformat('v {}')", "macro('m1')", "macro('m2')", "record('rec')", "copy('cp')", "let('f', 'v')", "let('v')", "set('fixed')", "lookup('tab', add_field='l')", "rlookup('tab', add_field='l2')", "gpvlookup('gpv', add_field='l3')", "count(var='cnt')", "count(globvar='gcnt')", "to_str", "default('d')", "default('None')", "lookup('csv', add_field='l4')", "chain('fn1')"]
CONDF = ["equal('a')", "notequal('a')", "startswith_re('a')", "endswith_re('1')", "contains_re('[0-9]')", "contains('a')", "contains('a', '1')", "notstartswith_re('a')", "notendswith_re('1')", "exclude_re('zz')", "exclude('zz')", "isdigit", "notdigit", "greaterthan('5')", "lessthan(50)", "is_ip", "cidr_match('10.0.0.0/8')", "cidr_match('net')", "equal('rec')", "contains('dom')"]
LASTF = ["to_int", "to_float", "to_list", "split(',')", "split(',') | item(0)", "split('.') | item(-1)", "split(',') | join(':')", "unrange('-', ',')", "uptimeparse", "uptimeparse(format='dict')", "mac_eui", "ip_info", "to_cidr", "joinmatches", "joinmatches(',')", "to_list | joinmatches", "split(',') | joinmatches", "split(',') | joinmatches | default('None')", "to_int | joinmatches", "to_int | joinmatches(',')", "to_float | joinmatches", "to_unicode", "void", "item(0)", "item(9)", "to_int | default(0)"]
PATTERNS = ["", "", "", "WORD", "PHRASE", "ORPHRASE", "DIGIT", "IP", "PREFIX", "MAC", "ROW", "IPV6", "PREFIXV6", "_line_", "re('[a-z]+')", "re('.+')", "re('DIGIT')", "re('pat')", "PHRASE | WORD", "NOTDIGIT"]
GROUPF = ["contains=\"a\"", "contains=\"a, b\"", "containsall=\"a, name\"", "exclude=\"c\"", "excludeall=\"a, b\"", "contains_val=\"'a', '1'\"", "exclude_val=\"'a', '1'\"", "equal=\"a, 1\"", "del=\"b\"", "set=\"rec, default='none'\"", "set=\"hn, host\"", "record=\"a, rec2\"", "sformat=\"string='{a} {b}', add_field='s'\"", "macro=\"g1\"", "macro=\"g2\"", "to_int=\"\"", "to_int=\"a, b\"", "to_ip=\"'zz', 'yy'\"", "str_to_unicode=\"\"", "lookup=\"'a', name='tab', add_field='l'\"", "lookup=\"'name', name='tab', update=True\"", "items2dict=\"key_name='a', value_name='b'\"", "void=\"\"", "expand=\"\"", "validate=\"'sch', 'v'\"", "cerberus=\"sch\"", "functions=\"contains('a') | macro('g1')\"", "functions=\"sformat(string='{zz}', add_field='s') | del('s')\"", "method=\"table\"", "default=\"none\"", "chain=\"fn2\""]
HEAD = """<vars>
hn = "gethostname"
now = "get_timestamp_ms"
net = "10.0.0.0/8"
dom = "a"
pat = "[0-9]+"
fn1 = "upper | lower"
fn2 = "contains('a') | macro('g1')"
sch = {"a": {"type": "string", "required": True}}
</vars>
<lookup name="tab" load="python">
{"a": {"l": "la"}, "1": "one", "10.0.0.1": {"l": "ip"}}
</lookup>
<lookup name="csv" load="csv" key="k">
k,v
a,1
b,2
</lookup>
<lookup name="gpv" load="python">
{"p": ["1.*", "a.*"], "q": ["b"]}
</lookup>
<macro>
def m1(data):
    return data + "!"

def m2(data):
    return "1" in data

def g1(data):
    data["g1"] = len(data)
    return data

def g2(data):
    return "c" not in data

def i1(data):
    return data.replace("mtu", "MTU")

def o1(data):
    return None
</macro>
"""


def token(d):
    return d.choice(["a", "1", "10.0.0.1", "10.0.0.0/24", "b", "aa:bb:cc:dd:ee:ff", "aabb.ccdd.eeff", "1,2,3", "1-4,7", "fe80::1", "2001:db8::/32", "Gi1/1", "10.0", "999.1.1.1", "-", "2 weeks, 3 days, 1 minute", "x y", "0", "", "a b  c", gen.word(d), gen.word(d), "\t", "é", "٣", "²", "5.5e1", "1e400", "nan", "-5", "{a}", "{}", "%s", "\\1", "{{ a }}", "<g>", "&amp;"])


def variable(d, names):
    """Template variable; a name is on a line once."""
    k = d.int(0, 19)
    if k == 0:
        return d.choice(["{{ ignore }}", "{{ ignore(\"[a-z]+\") }}", "{{ ignore(pat) }}"])
    parts = [names.pop(d.int(0, len(names) - 1))]
    p = d.choice(PATTERNS)
    if p:
        parts.append(p)
    for _ in range(d.choice([0, 0, 0, 1, 1, 2])):
        parts.append(d.choice(TEXTF if d.bool(65) else CONDF))
    if d.bool(20):
        parts.append(d.choice(LASTF))
    return "{{ %s }}" % " | ".join(parts)


def line(d, start=False):
    k = d.int(0, 19)
    if k == 0 and not start:
        return [d.choice(["{{ hn | set('hn') }}", "{{ rr | set('rec') }}", "{{ n | set('now') }}", "{{ k | set('konst') }}"])], True
    if k == 1 and not start:
        return [d.choice(["{{ _end_ }}", "! {{ _end_ }}", "{{ dd | _line_ | joinmatches }}", "{{ dd | _line_ | contains('mtu') }}", "exact 10 {{ _exact_ }} {{ x }}", "exact 1 {{ _exact_ }}"])], False
    toks, names = [], list(VARS)
    if d.bool(80):
        toks.append(d.choice(LIT))
    for _ in range(d.int(1, 3)):
        toks.append(variable(d, names) if d.bool(70) else d.choice(LIT + ["10", "(x)", "a.b", "*", "+", "["]))
    if not any("{{" in t for t in toks):
        toks.append(variable(d, names))
    if start and d.bool(15):
        toks.append("{{ _start_ }}")
    return toks, False


def group(d, deep, out):
    """Text of a group; lines with blanks to fill go to out."""
    name = d.choice(["g", "g*", "h", "h**", "g.h", "g*.h*", "{{ name }}", "p.{{ a }}", "p*.{{ name }}.q*", "/top", None] + ["_", "_.n"] * (deep > 0))
    attrs = [] if name is None else ["name=%s" % quoteattr(name)]
    seen = set()
    for _ in range(d.choice([0, 0, 0, 1, 1, 2])):
        f = d.choice(GROUPF)
        if f.split("=")[0] not in seen:
            seen.add(f.split("=")[0])
            attrs.append(f)
    ind = " " * d.choice([0, deep, deep])
    itemized = name != "_" and (name is not None or not deep) and d.bool(4)
    if itemized:  # gives something else than a dictionary
        attrs = attrs[: name is not None] + ['itemize="a"']
    rows = []
    for i in range(d.int(1, 4)):
        toks, std = line(d, i == 0)
        if not std:
            out.append(toks)
        rows.append(ind + (" " if i and d.bool(60) else "") + " ".join(toks))
    if deep < 2 and not itemized:
        for _ in range(d.choice([0, 0, 1, 1, 2])):
            rows.insert(d.int(1, len(rows)), group(d, deep + 1, out))
    return "<group %s>\n%s\n</group>" % (" ".join(attrs), "\n".join(rows))


FIT = {"DIGIT": ["1", "10", "7"], "IP": ["10.0.0.1", "10.0.0.2"], "PREFIX": ["10.0.0.0/24"], "MAC": ["aabb.ccdd.eeff"], "IPV6": ["fe80::1"], "PREFIXV6": ["2001:db8::/32"], "re('[a-z]+')": ["a", "b"], "re('DIGIT')": ["5"], "re('pat')": ["1", "12"], "PHRASE": ["a b", "x 1 y"], "ROW": ["a  b"]}
USUAL = ["a", "1", "b", "a", "1", "10.0.0.1", "1,2,3", "1-4,7", "Gi1/1", "a1", "2 weeks, 3 days, 1 minute"]


def filled(d, var):
    """Text for the variable, mostly one it matches."""
    if d.bool(25):
        return token(d)
    for part in var.strip("{} ").split(" | ")[1:2]:
        if part in FIT:
            return d.choice(FIT[part])
    return d.choice(USUAL[:6] if d.bool(70) else USUAL)


def data_text(d, out):
    rows = []
    for _ in range(d.int(0, 12)):
        if d.bool(85) and out:
            toks = d.choice(out)
            row = " ".join(filled(d, t) if "{{" in t else t for t in toks if "_start_" not in t and "_end_" not in t and "_exact_" not in t)
            if d.bool(50):
                row = " " + row
        else:
            row = d.choice(["!", "", "  ", "sw1#show run", token(d), " ".join(token(d) for _ in range(d.int(1, 4))), gen.word(d) * d.choice([1, 50])])
        rows.append(row)
        if d.bool(20) and rows:
            rows.append(d.choice(rows))
    text = d.choice(["\n", "\n", "\n", "\n", "\r\n"]).join(rows)
    return text + d.choice(["", "\n", "\n\n"])


def any_case(d):
    out = []
    groups = [group(d, 0, out) for _ in range(d.choice([1, 1, 1, 2, 3]))]
    head = HEAD
    if re.search("contains_val|exclude_val|lookup=|items2dict", "".join(groups)):  # for text only
        groups = [re.sub(r" \| (to_(int|float|list|cidr)|default\(0\)|split\('[^']*'\)|mac_eui|ip_info|uptimeparse\(.*?\)|let\(.*?\))(?= )", "", g).replace('to_int="a, b"', "").replace('to_int=""', "") for g in groups]
    results = d.choice(["per_input", "per_input", "per_template"])
    template = "<template results=\"%s\">\n%s%s\n</template>" % (results, head, "\n".join(groups))
    return {"template": template, "texts": [data_text(d, out) for _ in range(d.choice([1, 1, 2, 3]))]}


gen_any = gen.cases(any_case)


def plain_values(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            ensure(k is None or isinstance(k, (str, int)), "key of results", key=k, path=path)
            plain_values(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            plain_values(v, path + (i,))
    else:
        ensure(x is None or isinstance(x, (str, int, float, bool)), "value of results", value=x, path=path)


def stable(x):
    """With time left out: the template reads the clock."""
    if isinstance(x, dict):
        return {k: stable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [stable(v) for v in x]
    if isinstance(x, str) and re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}", x):
        return "now"
    return "nan" if isinstance(x, float) and x != x else x


def check_stable(case, reparse, per_input):
    """Results of the template over texts: no failure, plain values, the same again."""
    texts = [t if not os.path.exists(t) else t + "\n" for t in case["texts"]]

    def load():
        p = api.new()
        p.add_template(case["template"])
        for t in texts:
            p.add_input(t)
        return p

    p = load()
    p.parse(one=True)
    first = p.result()
    ensure(isinstance(first, list) and len(first) == 1, "results", got=first)
    plain_values(first)
    if per_input:
        eq(len(first[0]), len(set(texts)), "number of results of inputs", results=first)  # the same text is loaded once
    kept = copy.deepcopy(first)
    q = load()
    q.parse(one=True)
    eq(stable(q.result()), stable(first), "results of another parser of the same")
    if reparse:
        p.clear_result()
        p.parse(one=True)
        eq(stable(p.result()), stable(kept), "results of parsing again")
    eq(stable(first), stable(kept), "results returned before")
    return first


@sub(P, "any", gen_any, 6000, 150000, "something is in results")
def any_(case):
    per_input = 'results="per_input"' in case["template"]
    # variables recorded and counted for all templates outlive results
    lasting = re.search("'rec|=\"rec|globvar|record=", case["template"][case["template"].rindex("</macro>"):])
    first = check_stable(case, not lasting, per_input)
    return ["per_input" if per_input else "per_template"] if any(first[0]) else None


@gen.cases
def gen_logging(d):
    return dict(any_case(d), level=d.choice(["DEBUG", "DEBUG", "DEBUG", "INFO", "WARNING", "ERROR", "debug", "unknown"]))


@sub(P, "logging", gen_logging, 500, 12000, "something is in results")
def check_logging(case):
    from ttp import ttp

    logger = logging.getLogger("ttp")
    handler = logging.NullHandler()
    logger.addHandler(handler)
    texts = [t if not os.path.exists(t) else t + "\n" for t in case["texts"]]
    outs = []
    try:
        for level in ("CRITICAL", case["level"]):
            p = ttp(log_level=level)
            p.add_template(case["template"])
            for t in texts:
                p.add_input(t)
            p.parse(one=True)
            outs.append(p.result())
    finally:
        logger.removeHandler(handler)
        ttp(log_level="CRITICAL")
    eq(stable(outs[1]), stable(outs[0]), "results with another level of logging")
    return [case["level"]] if any(outs[0][0]) else None


# --------------------------------------------------------------------------- templates people use
def packaged():
    import ttp_templates

    root = os.path.dirname(ttp_templates.__file__)
    out = []
    for where, _, names in sorted(os.walk(root)):
        for n in sorted(names):
            if n.endswith(".txt"):
                path = os.path.join(where, n)
                text = open(path, encoding="utf-8").read()
                if "<extend" not in text and "<output" not in text:
                    out.append((os.path.relpath(path, root), text))
    return out


@gen.cases
def gen_packaged(d):
    name, text = d.choice(packaged())
    rows = [x for x in re.sub(r"(?s)<(doc|vars|macro|input|lookup)\b.*?</\1>|<!--.*?-->", "", text).splitlines() if x.strip() and not x.strip().startswith(("<", "##"))]
    ident = [d.choice(["a", "Gi1/1", "10.0.0.1", "1"]) for _ in range(3)]

    def fill(row):
        def one(m):
            v = m.group(1)
            for k, vals in (("PREFIX", FIT["PREFIX"]), ("IPV6", FIT["IPV6"]), ("DIGIT", FIT["DIGIT"]), ("MAC", FIT["MAC"]), ("PHRASE", FIT["PHRASE"]), ("IP", FIT["IP"])):
                if re.search(r"\b%s\b" % k, v) and d.bool(80):
                    return d.choice(vals)
            return token(d) if d.bool(12) else d.choice(ident + USUAL)

        row = re.sub(r"\{\{\s*(_start_|_end_|_exact_|_line_|_exact_space_|\S+ \| set\(.*?\))\s*\}\}", "", row)
        return re.sub(r"\{\{(.+?)\}\}", one, row)

    texts = []
    for _ in range(d.choice([1, 1, 2])):
        out, pos = [], d.int(0, max(0, len(rows) - 1))
        for _ in range(d.int(1, 30)):
            if not rows:
                break
            k = d.int(0, 9)
            if k == 0:
                pos = d.int(0, len(rows) - 1)
            elif k == 1:
                out.append(d.choice(["!", "", "sw1#show version", "exit", token(d)]))
            elif k < 8:
                pos = (pos + 1) % len(rows)
            out.append(fill(rows[pos]))
        texts.append("\n".join(out) + d.choice(["", "\n"]))
    return {"template": "ttp://" + name.replace(os.sep, "/"), "texts": texts}


@sub(P, "packaged", gen_packaged, 1200, 30000, "something is in results")
def check_packaged(case):
    text = dict(packaged())[case["template"][len("ttp://"):]]
    first = check_stable(case, not re.search(r"\brecord\(|\bcount\(", text), False)
    return [case["template"][6:].split("/")[0]] if first and any(first[0]) else None


# --------------------------------------------------------------------------- files of any bytes
@gen.cases
def gen_files(d):
    files = []
    for _ in range(d.int(1, 4)):
        rows = []
        for _ in range(d.int(0, 6)):
            row = b"interface " + d.choice([b"a", b"b1", "é".encode(), "é".encode("latin-1"), b"\xff\xfe", b"\x80x", "日本".encode(), "日本".encode("shift_jis"), b"a\x00b", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80"])
            rows.append(row)
            if d.bool(60):
                rows.append(b" mtu " + d.choice([b"1500", b"9\xe9", b"x", b"1 ", b"\xc3"]))
        eol = d.choice([b"\n", b"\n", b"\r\n"])
        files.append(list(eol.join(rows) + d.choice([b"", eol])))
    return {"files": files, "how": d.choice(["add_input", "directory", "init"])}


FILES_TEMPLATE = """
<group name="i*">
interface {{ name | PHRASE | _start_ }}
interface {{ name | _start_ }}
 mtu {{ mtu }}
</group>
"""


@sub(P, "files", gen_files, 600, 20000, "a file is not proper UTF-8 and has interfaces")
def check_files(case):
    blobs = []
    for b in case["files"]:
        if bytes(b) not in blobs:
            blobs.append(bytes(b))
    with api.Scratch() as d:
        for i, b in enumerate(blobs):
            os.makedirs(os.path.join(d, "in"), exist_ok=True)
            with open(os.path.join(d, "in", "f%d.txt" % i), "wb") as f:
                f.write(b)
        p = api.new(template=FILES_TEMPLATE, **({"data": os.path.join(d, "in")} if case["how"] == "init" else {}))
        if case["how"] == "add_input":
            for i in range(len(blobs)):
                p.add_input(os.path.join(d, "in", "f%d.txt" % i))
        elif case["how"] == "directory":
            p.add_input(os.path.join(d, "in"))
        p.parse(one=True)
        got = p.result()[0]
    want, odd = [], False
    for b in blobs:
        text = b.decode("utf-8", errors="replace").replace("\r\n", "\n")
        odd = odd or ("\ufffd" in text and "interface" in text)
        want.append(api.parse("\n" + text, FILES_TEMPLATE)[0][0])
    if case["how"] == "add_input":
        eq(got, want, "results of files", files=[bytes(b) for b in blobs])
    else:  # files of a directory are in the order of the file system
        eq(sorted(map(repr, got)), sorted(map(repr, want)), "results of files", files=[bytes(b) for b in blobs])
    return ["files"] if odd else None


# --------------------------------------------------------------------------- the same template written otherwise
EMPTY = ["<doc></doc>", "<doc/>", "<doc>text of {{ doc }}, twice</doc>", "<macro></macro>", "<macro/>", "<macro>\n# nothing\n\ndef unused(data):\n    return data\n</macro>", "<vars></vars>", "<v/>", "<variables load='yaml'/>",
         "<vars name='none'></vars>", "<vars>\nunused = 1\n</vars>", "<lookup name='unused'/>", "<lookup name='unused' load='csv'></lookup>", "<group/>", "<g name='none'></g>", "<grp name='none.*'>\n</grp>", "<!-- a comment -->",
         "<!-- <group name='none'> -->", "\n\n", "<input/>", "<in name='none'></in>"]


def renamed(d, text, tag, names):
    """Text with tags called otherwise, each pair in its own way."""
    stack = []

    def one(m):
        if m.group(1):
            return "</" + stack.pop()
        stack.append(d.choice(names))
        return "<" + stack[-1]

    return re.sub(r"<(/?)%s\b" % tag, one, text)


@gen.cases
def gen_tags(d):
    case = any_case(d)
    head, body = HEAD, case["template"][case["template"].rindex("</macro>") + len("</macro>"):-len("</template>")]
    tops = re.split(r"\n(?=<group)", body)  # of nested groups too: put together until tags are even
    groups = []
    for t in tops:
        if groups and groups[-1].count("<group") != groups[-1].count("</group>"):
            groups[-1] += "\n" + t
        elif t.strip():
            groups.append(t)
    queues = [[x] for x in re.findall(r"(?s)<(?:vars|lookup|macro)\b.*?</(?:vars|lookup|macro)>", head)] + [groups]
    if d.bool(50):
        queues.append(["<output macro=\"o1\"/>"])
    parts, plain = [], []
    for q in queues:
        plain += q
    queues = [list(q) for q in queues if q]
    while queues:
        q = d.choice(queues)
        parts.append(q.pop(0))
        queues = [q for q in queues if q]
        for _ in range(d.choice([0, 0, 1])):
            parts.append(d.choice(EMPTY))
    other = "\n".join(parts)
    other = renamed(d, other, "group", ["group", "group", "g", "grp"])
    other = renamed(d, other, "vars", ["vars", "v", "variables"])
    other = other.replace("<output ", d.choice(["<output ", "<out ", "<o "]))
    if d.bool(30):  # comments among lines
        rows = other.split("\n")
        at = [i for i, r in enumerate(rows) if "{{" in r and "<" not in r and "=" not in r]
        if at:
            rows.insert(d.choice(at), "<!-- mtu {{ no }} -->")
        other = "\n".join(rows)
    opening = case["template"][: case["template"].index("\n")]
    return {"template": "%s\n%s\n</template>" % (opening, "\n".join(plain)), "other": "%s\n%s\n</template>" % (opening, other), "texts": case["texts"]}


@sub(P, "tags", gen_tags, 1200, 30000, "something is in results")
def check_tags(case):
    texts = [t if not os.path.exists(t) else t + "\n" for t in case["texts"]]
    outs = []
    for template in (case["template"], case["other"]):
        p = api.new()
        p.add_template(template)
        for t in texts:
            p.add_input(t)
        p.parse(one=True)
        outs.append(stable(p.result()))
    eq(outs[1], outs[0], "results of the template with tags called otherwise, in another order and empty tags", template=case["other"])
    return ["tags"] if any(outs[0][0]) else None


# --------------------------------------------------------------------------- another process
@gen.cases
def gen_seeds(d):
    return {"cases": [d.int(0, 2**31) for _ in range(40)], "seed": d.int(1, 1000)}


CHILD = """
import json, sys
from ttp import ttp
out = []
for case in json.load(sys.stdin):
    p = ttp(log_level="CRITICAL")
    p.add_template(case["template"])
    for t in case["texts"]:
        p.add_input(t)
    p.parse(one=True)
    out.append(p.result())
json.dump(out, sys.stdout)
"""


@sub(P, "processes", gen_seeds, 24, 800, "something is in results")
def check_seeds(case):
    cases = [dict(c, texts=[t if not os.path.exists(t) else t + "\n" for t in c["texts"]]) for c in (any_case(gen.Seeded(x)) for x in case["cases"])]
    outs = []
    for seed in ("0", str(case["seed"])):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD], input=json.dumps(cases), env=env, capture_output=True, text=True)
        eq(r.returncode, 0, "exit of the process", errors=r.stderr[-1500:])
        outs.append(json.loads(r.stdout))
    for c, a, b in zip(cases, *outs):
        eq(stable(b), stable(a), "results with another hash seed", case=c)
    return ["processes"] if any(any(x[0]) for x in outs[0]) else None
