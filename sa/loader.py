"""Parse the package under analysis and resolve its names."""
import ast
import hashlib
import os

REPO = os.environ.get("SA_REPO", "/repo")


class AnchorLost(Exception):
    pass


class Func(object):
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls

    @property
    def name(self):
        return self.node.name

    @property
    def loc(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            if isinstance(d, ast.Name):
                out.append(d.id)
            elif isinstance(d, ast.Attribute):
                out.append(d.attr)
            else:
                out.append("?")
        return out

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class(object):
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(qual + "." + n.name, n, module, self)
                if "setter" in f.decorators():
                    self.setters[n.name] = f
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
        self.bases = []

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module(object):
    def __init__(self, name, path, rel, is_pkg, src=None):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        if src is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(self.src, path)
        self.ns = {}
        self.stars = []

    def absname(self, level, mod):
        if level == 0:
            return mod
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return ".".join(parts + ([mod] if mod else []))


def nonnull(trees):
    good, bad = set(), set()

    def flat(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                for y in flat(x):
                    yield y
        else:
            yield t

    for tree in trees:
        for n in ast.walk(tree):
            ts, v = (), None
            if isinstance(n, ast.Assign):
                ts, v = n.targets, n.value
            elif isinstance(n, ast.AugAssign):
                continue
            elif isinstance(n, ast.AnnAssign):
                ts, v = [n.target], n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                ts = [n.target]
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                ts = [n.optional_vars]
            for t in ts:
                if isinstance(t, ast.Attribute):
                    (good if some(v) else bad).add(t.attr)
                else:
                    for x in flat(t):
                        if isinstance(x, ast.Attribute):
                            bad.add(x.attr)
    return frozenset(good - bad)


def holders(trees):
    """names of attributes that only ever hold dicts, and of those whose values are never None"""
    dicts, other, vals, maybe = set(), set(), set(), set()
    for tree in trees:
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            known = {}
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                known[x.id] = known.get(x.id, True) and x is t and some(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            known[x.id] = False
            for a in f.args.args + f.args.kwonlyargs:
                known[a.arg] = False
            ok = lambda v: some(v) or isinstance(v, ast.Name) and known.get(v.id, False)
            for n in ast.walk(f):
                if not isinstance(n, ast.Assign):
                    continue
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        if isinstance(n.value, ast.Dict):
                            dicts.add(t.attr)
                            (vals if all(ok(v) for v in n.value.values) else maybe).add(t.attr)
                        elif isinstance(n.value, ast.DictComp):
                            dicts.add(t.attr)
                            (vals if ok(n.value.value) else maybe).add(t.attr)
                        elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "dict":
                            dicts.add(t.attr)
                            if n.value.args or n.value.keywords:
                                maybe.add(t.attr)
                        else:
                            other.add(t.attr)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                        (vals if ok(n.value) else maybe).add(t.value.attr)
    return frozenset(dicts - other), frozenset(vals & dicts - other - maybe)


def some(v):
    """an expression whose value is evidently not None"""
    if isinstance(v, ast.Constant):
        return v.value is not None
    if isinstance(v, ast.IfExp):
        return some(v.body) and some(v.orelse)
    if isinstance(v, ast.Call):
        f = v.func
        return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy") \
            or isinstance(f, ast.Attribute) and f.attr == "copy" and not v.args \
            or isinstance(f, ast.Name) and f.id in ("list", "dict", "set", "tuple", "len", "int", "float", "str", "sorted")
    return isinstance(v, (ast.List, ast.Dict, ast.Tuple, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp,
                          ast.BinOp, ast.Compare, ast.JoinedStr))


class Program(object):
    def attribute_names(self):
        """every name used as an attribute"""
        r = getattr(self, "_attrnames", None)
        if r is None:
            r = self._attrnames = {n.attr for m in self.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
        return r

    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        base = os.path.join(self.repo, "skopt")
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(root, fn)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                m = Module(".".join(parts), path, rel, is_pkg, (overlay or {}).get(rel))
                self.modules[m.name] = m
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                c.bases.append(self.resolve_expr(c.module, b))
        self._resolve_memo = {}
        # attributes that are never None: every assignment says so
        self.nonnull = nonnull([m.tree for m in self.modules.values()])
        self.dictattrs, self.somevalues = holders([m.tree for m in self.modules.values()])
        self._lone = {}
        # attribute names assigned on some object: never class constants
        self.stored_attrs = {
            n.attr for m in self.modules.values() for n in ast.walk(m.tree)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}

    def lone_property(self, name):
        """the property of this name, if one class alone has a member called so"""
        if name not in self._lone:
            ms = [(c, m) for c in self.classes.values() for n, m in c.methods.items() if n == name]
            ok = len(ms) == 1 and "property" in ms[0][1].decorators() and not any(
                name in c.attrs for c in self.classes.values())
            self._lone[name] = ms[0][1] if ok else None
        return self._lone[name]

    def subclassed(self, c):
        return any(c in d.bases for d in self.classes.values())

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode() + b"\0")
        return h.hexdigest()[:16]

    def _scan(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.ns[a.asname] = ("name", a.name)
                    else:
                        m.ns[a.name.split(".")[0]] = ("name", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                src = m.absname(n.level, n.module)
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.ns.setdefault(a.asname or a.name, ("name", src + "." + a.name))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m.name + "." + n.name, n, m)
                m.ns[n.name] = ("func", f)
                self.funcs[f.qual] = f
            elif isinstance(n, ast.ClassDef):
                c = Class(m.name + "." + n.name, n, m)
                m.ns[n.name] = ("class", c)
                self.classes[c.qual] = c
                for f in c.methods.values():
                    self.funcs[f.qual] = f
                for f in c.setters.values():
                    self.funcs[f.qual + "@set"] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.ns[t.id] = ("const", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                m.ns[n.target.id] = ("const", n.value)
            elif isinstance(n, ast.Try):
                self._scan(m, n.body)
                for h in n.handlers:
                    # fallbacks only fill what the body did not bind
                    save = dict(m.ns)
                    self._scan(m, h.body)
                    m.ns.update(save)
            elif isinstance(n, ast.If):
                self._scan(m, n.orelse)
                self._scan(m, n.body)

    # --- name resolution: returns canonical dotted name and kind
    def canon(self, dotted, depth=0):
        """canonical name of a dotted reference, chasing re-exports"""
        if depth > 20:
            return dotted
        if dotted in self.funcs or dotted in self.classes:
            return dotted
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                if k == len(parts):
                    return dotted
                r = self.lookup(self.modules[mn], parts[k], depth + 1)
                if r is None:
                    return dotted
                rest = parts[k + 1:]
                if not rest:
                    return r
                return self.canon(".".join([r] + rest), depth + 1)
        return dotted

    def lookup(self, m, name, depth=0):
        """canonical dotted name of `name` in module m, or None"""
        e = m.ns.get(name)
        if e is not None:
            if e[0] == "name":
                return self.canon(e[1], depth + 1) if e[1].split(".")[0] == "skopt" else e[1]
            if e[0] in ("func", "class"):
                return e[1].qual
            return m.name + "." + name
        if (m.name + "." + name) in self.modules:
            return m.name + "." + name
        for s in m.stars:
            if s in self.modules and depth < 20:
                r = self.lookup(self.modules[s], name, depth + 1)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id) or e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            return self.canon(b + "." + e.attr)
        return "?"

    def func(self, qual):
        f = self.funcs.get(self.canon(qual)) or self.funcs.get(qual)
        if f is None:
            # method defined on a base class inside the package
            if "." in qual:
                cq, mn = qual.rsplit(".", 1)
                c = self.classes.get(self.canon(cq))
                if c is not None:
                    f = self.find_method(c, mn)
        if f is None:
            raise AnchorLost("function %s not found in the analysed tree" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(self.canon(qual))
        if c is None:
            raise AnchorLost("class %s not found in the analysed tree" % qual)
        return c

    def mro(self, c):
        out = [c]
        for b in c.bases:
            bc = self.classes.get(b)
            if bc is not None:
                for x in self.mro(bc):
                    if x not in out:
                        out.append(x)
        return out

    def find_method(self, c, name, setter=False):
        for k in self.mro(c):
            d = k.setters if setter else k.methods
            if name in d:
                return d[name]
        return None

    def subclasses(self, qual):
        return [c for c in self.classes.values() if any(k.qual == qual for k in self.mro(c))]
