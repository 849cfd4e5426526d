"""Rules that need no reference: name resolution, call binding, randomness,
parameter use.  Every rule returns (findings, counts);
a finding is (key, where, text) and only definite defects are reported."""
import ast
import builtins

from .loader import Func, Class
from .terms import show

BUILTIN = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__path__", "__all__", "__version__", "__package__",
                                "__spec__", "__loader__", "__builtins__", "__annotations__", "__dict__", "__class__"}


def in_scope(m, scopes):
    n = m.name[len("skopt."):] if m.name != "skopt" else ""
    return any(s == "*" or n == s or n.startswith(s + ".") for s in scopes)


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


# ------------------------------------------------------------------ names
class Scope(object):
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.bound, self.globals, self.nonlocals = set(), set(), set()


def bind_target(t, out):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)


def own_nodes(node):
    """nodes of a scope without those of nested scopes (their headers stay)"""
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module, ast.ClassDef)):
        st = list(node.body)
    elif isinstance(node, ast.Lambda):
        st = [node.body]
    else:
        st = [node.elt] if hasattr(node, "elt") else [node.key, node.value]
        st += [x for g in node.generators for x in [g.target] + g.ifs]
        st += [g.iter for g in node.generators[1:]]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, ast.ClassDef):
            st += n.decorator_list + n.bases + [k.value for k in n.keywords]
            continue
        if isinstance(n, ast.Lambda):
            st += n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            st.append(n.generators[0].iter)
            continue
        st.extend(ast.iter_child_nodes(n))


def build_scopes(tree):
    """[(scope, [loads])] for every scope of a module"""
    out = []

    def go(node, parent, kind):
        s = Scope(node, parent, kind)
        loads = []
        nested = []
        if hasattr(node, "args") and isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                s.bound.add(x.arg)
        for n in own_nodes(node):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    loads.append(n)
                else:
                    s.bound.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                s.bound.add(n.name)
                nested.append(n)
            elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                nested.append(n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    s.bound.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.bound.add(n.name)
            elif isinstance(n, ast.Global):
                s.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                s.nonlocals.update(n.names)
            elif isinstance(n, ast.MatchAs) and n.name:
                s.bound.add(n.name)
            elif isinstance(n, (ast.MatchStar,)) and n.name:
                s.bound.add(n.name)
        out.append((s, loads))
        for n in nested:
            k = "class" if isinstance(n, ast.ClassDef) else "func"
            go(n, s, k)
        # walrus targets of comprehensions bind in the enclosing function
        if not isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for n in ast.walk(node):
                if isinstance(n, ast.NamedExpr):
                    q = parent
                    while q is not None and not isinstance(q.node, (ast.Module, ast.FunctionDef, ast.Lambda)):
                        q = q.parent
                    if q is not None:
                        q.bound.add(n.target.id)
    go(tree, None, "module")
    return out


def ends(block):
    """control never gets past these statements"""
    for x in block:
        if isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(x, ast.If) and x.orelse and ends(x.body) and ends(x.orelse):
            return True
    return False


def unreachable(tree):
    dead = set()
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i in range(1, len(b)):
                    if ends(b[:i]):
                        for x in b[i:]:
                            dead.update(id(y) for y in ast.walk(x))
                        break
    return dead


def rule_names(prog, scopes):
    finds, n = [], 0
    for m in prog.modules.values():
        if not in_scope(m, scopes):
            continue
        sc = build_scopes(m.tree)
        # names bound through `global` declarations
        gl = set()
        for s, _ in sc:
            gl |= s.globals
        star_ext = any(x.split(".")[0] != "skopt" for x in m.stars)
        dead = unreachable(m.tree)
        for s, loads in sc:
            for ld in loads:
                n += 1
                if id(ld) in dead:
                    continue
                if resolves(ld.id, s, m, prog, gl) or star_ext:
                    continue
                fn = where_of(s)
                finds.append(("names:%s:%s:%s" % (m.name, fn, ld.id), "%s:%d" % (m.rel, ld.lineno),
                              "%s: the name %s is not defined" % (fn, ld.id)))
        for f in functions(m.tree):
            k, fs = definite(f)
            n += k
            for name, line in fs:
                finds.append(("unbound:%s:%s:%s" % (m.name, f.name, name), "%s:%d" % (m.rel, line),
                              "%s: the local variable %s is read where no path has bound it" % (f.name, name)))
        # package imports that do not resolve
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.ImportFrom):
                src = m.absname(nd.level, nd.module)
                if src.split(".")[0] != "skopt" or src not in prog.modules and nd.level == 0 and ".tests" in src:
                    continue
                for a in nd.names:
                    n += 1
                    if src not in prog.modules:
                        finds.append(("import:%s:%s" % (m.name, src), "%s:%d" % (m.rel, nd.lineno), "no module %s" % src))
                    elif a.name != "*" and prog.lookup(prog.modules[src], a.name) is None and a.name not in BUILTIN \
                            and not dynamic_module(prog.modules[src]):
                        finds.append(("import:%s:%s.%s" % (m.name, src, a.name), "%s:%d" % (m.rel, nd.lineno),
                                      "%s does not define %s" % (src, a.name)))
    return finds, {"name loads and imports": n}


def dynamic_module(m):
    return any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in m.tree.body)


def where_of(s):
    while s is not None and not hasattr(s.node, "name"):
        s = s.parent
    return s.node.name if s is not None else "<module>"


def resolves(name, s, m, prog, gl):
    q, first = s, True
    while q is not None:
        if (q.kind != "class" or first) and name in q.bound:
            return True
        if name in q.globals and q.kind != "module":
            break
        first = False
        q = q.parent
    return name in BUILTIN or name in gl or prog.lookup(m, name) is not None or \
        (s.kind == "class" and name in ("__qualname__", "__module__"))


def definite(fn):
    """locals read although no path from the entry has bound them (must-unbound)"""
    local = set()
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    skip = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            local.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            local.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            local.update((x.asname or x.name).split(".")[0] for x in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
    local -= params | skip
    bad, count = [], [0]

    def uses(e, may):
        for n in walk_now(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local:
                count[0] += 1
                if n.id not in may:
                    bad.append((n.id, n.lineno))
            elif isinstance(n, ast.NamedExpr):
                may.add(n.target.id)

    def walk_now(e):
        """nodes evaluated with the expression (closures run later)"""
        st = [e]
        while st:
            n = st.pop()
            if isinstance(n, ast.Lambda):
                st += n.args.defaults
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = set()
                for g in n.generators:
                    bind_target(g.target, own)
                inner = [x for x in ast.iter_child_nodes(n)]
                for x in inner:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and y.id in own:
                            continue
                        if isinstance(y, ast.Name):
                            yield y
                continue
            yield n
            st.extend(ast.iter_child_nodes(n))

    def block(ss, may):
        for s in ss:
            may = stmt(s, may)
        return may

    def stores(s):
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((x.asname or x.name).split(".")[0] for x in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out

    def stmt(s, may):
        may = set(may)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            may.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            may |= stores(s)
        elif isinstance(s, ast.If):
            uses(s.test, may)
            may = block(s.body, may) | block(s.orelse, may)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            uses(s.iter, may)
            inner = may | stores(s)
            block(s.body, inner)
            block(s.orelse, inner)
            may = inner
        elif isinstance(s, ast.While):
            inner = may | stores(s)
            uses(s.test, inner)
            block(s.body, inner)
            block(s.orelse, inner)
            may = inner
        elif isinstance(s, ast.Try):
            b = block(s.body, may)
            inner = may | stores(s)
            for h in s.handlers:
                block(h.body, inner)
            block(s.orelse, inner)
            block(s.finalbody, inner)
            may = inner
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                uses(it.context_expr, may)
                if it.optional_vars is not None:
                    bind_target(it.optional_vars, may)
            may = block(s.body, may)
        elif isinstance(s, ast.Assign):
            uses(s.value, may)
            for t in s.targets:
                uses(t, may)
                bind_target(t, may)
        elif isinstance(s, ast.AugAssign):
            uses(s.value, may)
            if isinstance(s.target, ast.Name):
                count[0] += 1
                if s.target.id in local and s.target.id not in may:
                    bad.append((s.target.id, s.lineno))
                may.add(s.target.id)
            else:
                uses(s.target, may)
        elif isinstance(s, ast.Match):
            return may | stores(s)
        else:
            for e in ast.iter_child_nodes(s):
                uses(e, may)
            may |= stores(s)
        return may
    block(fn.body, params)
    return count[0], sorted(set(bad))


# ------------------------------------------------------------------ call binding
def bind_error(f, npos, kws, star, dstar, skip_self):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_self:
        pos = pos[1:]
    if npos > len(pos) and a.vararg is None:
        return "takes %d positional arguments but %d are given" % (len(pos), npos)
    ok = set(pos) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k not in ok and a.kwarg is None:
            return "has no parameter %s" % k
        if k in pos[:npos]:
            return "is given %s twice" % k
    if not star and not dstar:
        nd = len(a.defaults)
        need = pos[:max(0, len(pos) - nd)] if nd <= len(pos) else []
        for i, p in enumerate(need):
            if i >= npos and p not in kws:
                return "is called without %s" % p
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return "is called without %s" % x.arg
    return None


def rule_calls(prog, scopes):
    finds, n = [], 0
    for m in prog.modules.values():
        if not in_scope(m, scopes):
            continue
        for cls, fn in fn_with_class(m):
            shadow = {x.arg for x in fn.args.args + fn.args.kwonlyargs} | \
                {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call):
                    continue
                f, skip = target(prog, m, cls, fn, c.func, shadow)
                if f is None:
                    continue
                n += 1
                star = any(isinstance(x, ast.Starred) for x in c.args)
                npos = sum(1 for x in c.args if not isinstance(x, ast.Starred))
                kws = [k.arg for k in c.keywords if k.arg]
                err = bind_error(f, npos, kws, star, any(k.arg is None for k in c.keywords), skip)
                if err:
                    finds.append(("calls:%s:%s:%s" % (m.name, fn.name, f.qual), "%s:%d" % (m.rel, c.lineno),
                                  "%s: %s %s" % (fn.name, f.qual.replace("skopt.", ""), err)))
        # self attributes that nothing ever defines
        for cq, c in prog.classes.items():
            if c.module is not m:
                continue
            mro = prog.mro(c)
            if any(b not in ("object",) and b not in prog.classes for k in mro for b in k.bases):
                continue
            have = set(dir(object)) | {"__class__", "__dict__"}
            dyn = False
            for k in mro + prog.subclasses(cq):
                have |= set(k.methods) | set(k.setters) | set(k.attrs)
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        have.add(x.attr)
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        have.add(x.target.id)
                    if isinstance(x, ast.Name) and x.id in ("setattr", "__dict__") or isinstance(x, ast.Attribute) and x.attr == "__dict__":
                        dyn = True
            if dyn:
                continue
            have |= prog.stored_attrs
            for f in c.methods.values():
                if not f.node.args.args or "staticmethod" in f.decorators() or "classmethod" in f.decorators():
                    continue
                me = f.node.args.args[0].arg
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load):
                        n += 1
                        if x.attr not in have:
                            finds.append(("attr:%s:%s:%s" % (cq, f.name, x.attr), "%s:%d" % (m.rel, x.lineno),
                                          "%s.%s reads %s.%s, which nothing defines" % (c.node.name, f.name, me, x.attr)))
    return finds, {"call sites and attribute reads": n}


def fn_with_class(m):
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef,)):
            yield None, n
        elif isinstance(n, ast.ClassDef):
            for k in n.body:
                if isinstance(k, ast.FunctionDef):
                    yield n, k


def target(prog, m, cls, fn, e, shadow):
    """(package function called, skip self) when it is certain"""
    if isinstance(e, ast.Name):
        if e.id in shadow:
            return None, False
        q = prog.lookup(m, e.id)
    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and cls is not None and fn.args.args and \
            e.value.id == fn.args.args[0].arg and "staticmethod" not in [getattr(d, "id", "") for d in fn.decorator_list]:
        c = prog.classes.get(m.name + "." + cls.name)
        if c is None:
            return None, False
        subs = prog.subclasses(c.qual)
        fs = {prog.find_method(s, e.attr) for s in subs}
        if len(fs) != 1 or None in fs:
            return None, False
        f = fs.pop()
        if f.decorators():
            return None, False
        if e.attr in {x.attr for k in prog.mro(c) for x in ast.walk(k.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}:
            return None, False
        return f, True
    elif isinstance(e, ast.Attribute):
        b = e
        while isinstance(b, ast.Attribute):
            b = b.value
        if not isinstance(b, ast.Name) or b.id in shadow:
            return None, False
        q = prog.resolve_expr(m, e)
    else:
        return None, False
    if q is None:
        return None, False
    f = prog.funcs.get(q)
    if f is not None:
        if f.cls is not None or f.decorators():
            return None, False
        return f, False
    c = prog.classes.get(q)
    if c is not None:
        if c.node.decorator_list or any(k.arg == "metaclass" for k in c.node.keywords):
            return None, False
        f = prog.find_method(c, "__init__")
        if f is not None and f.cls.qual in {k.qual for k in prog.mro(c)} and not f.decorators():
            # an external base placed before the package one could win
            return f, True
    return None, False


# ------------------------------------------------------------------ randomness
NP_OK = {"RandomState", "Generator", "SeedSequence", "BitGenerator", "PCG64", "MT19937", "mtrand", "default_rng"}
SEEDED = {"numpy.random.RandomState", "numpy.random.default_rng", "random.Random", "sklearn.utils.check_random_state"}
SPLITTERS = {"sklearn.utils.shuffle", "sklearn.utils.resample", "sklearn.model_selection.train_test_split"}
# the plotting functions have no random_state parameter for their sample
NO_STATE_MODULES = {"skopt.plots"}


def rule_rng(prog, scopes):
    finds, n = [], 0
    for m in prog.modules.values():
        if not in_scope(m, scopes):
            continue
        shadow_memo = {}
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.Attribute, ast.Name)) and isinstance(node.ctx, ast.Load):
                b = node
                while isinstance(b, ast.Attribute):
                    b = b.value
                if not isinstance(b, ast.Name) or b.id not in m.ns and not isinstance(node, ast.Name):
                    continue
                q = dotted(prog, m, node)
                if q is None:
                    continue
                if q.startswith("numpy.random."):
                    n += 1
                    if q.split(".")[2] not in NP_OK or q.split(".")[2:4] == ["mtrand", "_rand"] or q.endswith("._rand"):
                        finds.append(("rng:%s:%s" % (m.name, q), "%s:%d" % (m.rel, node.lineno),
                                      "uses the global generator through %s" % q))
                elif q.startswith("random.") and "random" in {e[1] for e in m.ns.values() if e[0] == "name"} | {e[1].split(".")[0] for e in m.ns.values() if e[0] == "name"}:
                    n += 1
                    if q not in ("random.Random", "random.SystemRandom"):
                        finds.append(("rng:%s:%s" % (m.name, q), "%s:%d" % (m.rel, node.lineno),
                                      "uses the global generator through %s" % q))
            elif isinstance(node, ast.Call):
                q = dotted(prog, m, node.func)
                kws = {k.arg for k in node.keywords}
                if q in SEEDED:
                    n += 1
                    none = (not node.args and not node.keywords) or \
                        (node.args and isinstance(node.args[0], ast.Constant) and node.args[0].value is None) or \
                        any(k.arg in ("seed", "x") and isinstance(k.value, ast.Constant) and k.value.value is None for k in node.keywords)
                    if none:
                        finds.append(("rng:%s:%s()" % (m.name, q), "%s:%d" % (m.rel, node.lineno), "%s without a seed" % q))
                elif q in SPLITTERS and "random_state" not in kws and None not in kws:
                    finds.append(("rng:%s:%s" % (m.name, q), "%s:%d" % (m.rel, node.lineno), "%s without random_state" % q))
                elif isinstance(node.func, ast.Attribute) and node.func.attr == "rvs":
                    n += 1
                    rs = [k.value for k in node.keywords if k.arg == "random_state"]
                    given = bool(rs) or len(node.args) >= 2 or None in kws
                    isnone = rs and isinstance(rs[0], ast.Constant) and rs[0].value is None
                    if (not given or isnone) and m.name not in NO_STATE_MODULES:
                        finds.append(("rng:%s:rvs" % m.name, "%s:%d" % (m.rel, node.lineno), "samples without the given random state"))
    return finds, {"uses of generators": n}


def dotted(prog, m, e):
    if isinstance(e, ast.Name):
        x = m.ns.get(e.id)
        return x[1] if x is not None and x[0] == "name" else None
    if isinstance(e, ast.Attribute):
        b = dotted(prog, m, e.value)
        return None if b is None else b + "." + e.attr
    return None


# ------------------------------------------------------------------ parameters
def rule_forward(prog, scopes):
    """every parameter of a public function is read"""
    finds, n = [], 0
    for m in prog.modules.values():
        if not in_scope(m, scopes):
            continue
        for cls, fn in fn_with_class(m):
            if fn.name.startswith("_") and fn.name != "__init__":
                continue
            loads = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            spread = any(isinstance(x, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Call) for k in x.keywords) for x in ast.walk(fn))
            if spread:
                continue
            for a in fn.args.args + fn.args.kwonlyargs:
                if a.arg in ("self", "cls"):
                    continue
                n += 1
                if a.arg not in loads:
                    finds.append(("unused:%s.%s:%s" % (m.name, fn.name, a.arg), "%s:%d" % (m.rel, fn.lineno),
                                  "%s accepts %s but never uses it" % (fn.name, a.arg)))
    return finds, {"parameters": n}


# ------------------------------------------------------------------ sampling
def leaves(t, path=()):
    if t.op == "ite":
        yield from leaves(t.a[1], path + ((t.a[0], True),))
        yield from leaves(t.a[2], path + ((t.a[0], False),))
    else:
        yield path, t


def consts(p):
    """equalities with constants that hold on a path, None if they conflict"""
    d = {}
    for c, b in p:
        if b and c.op == "eq":
            k = [x for x in c.a if x.op == "const"]
            o = [x for x in c.a if x.op != "const"]
            if k and o and d.setdefault(o[0].id, k[0]) is not k[0]:
                return None
    return d


def agree(p, q):
    d = dict((c.id, b) for c, b in p)
    return all(d.get(c.id, b) == b for c, b in q) and consts(p + q) is not None


def heads(t, seen):
    if id(t) in seen:
        return
    seen.add(id(t))
    if hasattr(t, "op"):
        yield t
        for x in t.a:
            yield from heads(x, seen)
    elif isinstance(t, tuple):
        for x in t:
            yield from heads(x, seen)


def rule_rounded(prog, scopes):
    """no dimension draws whole numbers by rounding uniform numbers of the
    closed unit interval (the two bounds get half the probability)"""
    from .equiv import Pair, slice_term
    pair = Pair(prog, prog)
    finds, n = [], 0
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        if not in_scope(c.module, scopes) or "set_transformer" not in c.methods:
            continue
        q = c.qual + "."
        s = pair.summ(prog, q + "set_transformer")
        try:
            law, tr = slice_term(s, ("field", "self", "_rvs")), slice_term(s, ("field", "self", "transformer"))
            draw = slice_term(pair.summ(prog, q + "rvs"), ("ret",))
        except ValueError:
            continue
        for p1, x in leaves(law):
            if x.op != "call" or repr(x.a[0]) != "scipy.stats.uniform":
                continue
            for p2, y in leaves(tr):
                if not agree(p1, p2):
                    continue
                n += 1
                rounds = any(z.op == "call" and repr(z.a[0]).endswith(".Normalize") and
                             any(k == "is_int" and v.op == "const" and v.a[-1] is True for k, v in z.a[2])
                             for z in heads(y, set()))
                if rounds and draw.op == "call" and repr(draw.a[0]) == "meth<self, inverse_transform>" and "self._rvs" in repr(draw.a[2]):
                    when = sorted({show(k) for k in consts(p1 + p2).values()})
                    key = "rounded:%s:%s" % (c.qual, "+".join(w.strip("'") for w in when))
                    if key not in [f[0] for f in finds]:
                        finds.append((key, "%s:%d" % (c.module.rel, c.node.lineno),
                                      "%s.rvs rounds uniform numbers, so the two bounds are drawn half as often (%s)" % (c.node.name, ", ".join(when))))
    return finds, {"sampling laws": n}


RULES = {"rounded": rule_rounded, "names": rule_names, "calls": rule_calls, "rng": rule_rng, "forward": rule_forward}
