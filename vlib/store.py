"""Reference model of where group records are saved (documented path rules)."""
import re

_DYN = re.compile(r"{{\s*(\S+?)\s*}}")


def split_path(items):
    out = []
    for it in items:
        stars = len(it) - len(it.rstrip("*"))
        out.append((it.rstrip("*"), "*" * stars))
    return out


class Store:
    def __init__(self, variables=None, key_to_int=False):
        self.root = {}
        self.cache = {}
        self.vars = variables or {}
        self.key_to_int = key_to_int

    def resolve(self, items, rec):
        """Dynamic items: own record (and removed from it), then latest values seen, then variables."""
        path = []
        for name, stars in split_path(items):
            for var in _DYN.findall(name):
                if var in rec:
                    self.cache[var] = str(rec.pop(var))
                    val = self.cache[var]
                elif var in self.cache:
                    val = self.cache[var]
                elif var in self.vars:
                    val = str(self.vars[var])
                else:
                    return None
                name = re.sub(r"{{\s*%s\s*}}" % re.escape(var), lambda _: val, name)
            if self.key_to_int and name.isdecimal():
                name = int(name)
            path.append((name, stars))
        return path

    def _container(self, path):
        """Dictionary that holds the last item of the path, branches created on the way."""
        node = self.root
        for name, stars in path:
            if name not in node:
                node[name] = [{}] if stars == "*" else {}
            node = node[name]
            if isinstance(node, list):
                if not node:
                    node.append({})
                node = node[-1]
        return node

    def save(self, items, rec):
        rec = dict(rec)
        path = self.resolve(items, rec)
        if path is None:
            return
        merge_up = path[-1][0] == "_"
        path = [p for p in path if p[0] != "_"]
        if merge_up:
            self._container(path).update(rec)
            return
        holder = self._container(path[:-1])
        name, stars = path[-1]
        if name not in holder:
            holder[name] = [rec] if stars == "*" else rec
        elif isinstance(holder[name], list):
            if rec:
                holder[name].append(rec)
        elif stars == "**":
            for k, v in rec.items():
                holder[name].setdefault(k, v)
        elif holder[name] == {}:
            holder[name] = rec
        else:
            holder[name] = [holder[name], rec]

    def tail(self, items, rec):
        """Line of an already saved record (it came after a child record)."""
        path = self.resolve(items, dict(rec))
        if path is None:
            return
        path = [p for p in path if p[0] != "_"]
        self._container(path).update(rec)

    def item(self):
        """What one input contributes to the results."""
        root = dict(self.root)
        if "_anonymous_" in root:
            out = root.pop("_anonymous_")
            if root:
                out = out + [root]
            return out
        return root
