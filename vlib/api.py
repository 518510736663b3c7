"""Thin wrappers over the public API of the code under test."""
import os
import itertools
import shutil

_counter = itertools.count()



def new(data="", template="", **kw):
    from ttp import ttp

    return ttp(data=data, template=template, log_level="CRITICAL", **kw)


def parse(data, template, vars=None, one=True, multi=False, functions=(), lookups=(), result=None, **kw):
    """One-shot: template + text -> result(). functions: (fun, scope, name, add_ttp)."""
    p = new(**({"vars": vars} if vars else {}), **kw)
    for f in functions:
        p.add_function(*f)
    for name, kwargs in lookups:
        p.add_lookup(name, **kwargs)
    p.add_template(template)
    for d in data if isinstance(data, list) else [data]:
        # a text that happens to be the path of something, "." say, would be taken for the path
        p.add_input(d + "\n" if isinstance(d, str) and not os.path.isfile(d) and os.path.exists(d) else d)
    p.parse(one=one, multi=multi)
    return p.result(**(result or {}))


def parse1(data, template, **kw):
    """Result of the only input of the only template."""
    r = parse(data, template, **kw)
    if not (isinstance(r, list) and len(r) == 1 and isinstance(r[0], list) and len(r[0]) == 1):
        from vlib.core import Violation

        raise Violation("expected results shaped [[item]] for one template and one input, got %r" % (r,))
    return r[0][0]


class Scratch:
    """Temporary directory inside the worker's scratch folder."""

    def __enter__(self):
        base = os.environ["VERIF_SCRATCH"]
        self.path = os.path.join(base, "s%d" % next(_counter))
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
