"""Interprocedural value-graph construction (gated SSA + heap + loop closed
forms) over Python syntax.  Joins merge (no path enumeration); calls of private
or newly introduced package helpers are inlined, public package functions stay
opaque nodes with their arguments bound to the signature."""
import ast
import copy
import re
import string
from .terms import *
from .norm import clamp, canon_ext, METHOD_FN, BUILTINS
from .loader import Func, Class, AnchorLost
from .baseline import PUBLIC_OPAQUE, PURE_INTERNAL

SCALAR_FNS = {"len", "min", "max", "abs", "int", "float", "bool", "str", "isinstance",
              "argmin", "argmax", "any_", "all_", "hasattr", "issubclass", "callable",
              "type", "id", "repr", "round", "pyround", "floor", "ceil", "pow", "sum", "mean",
              "min2", "max2", "log", "log10", "exp", "sqrt", "range", "zip", "enumerate",
              "time.time", "getattr", "ord", "chr", "hash", "sklearn.base.is_regressor",
              "numpy.allclose", "numpy.iinfo", "numpy.issubdtype"}

PURE_METHODS = {
    "transform", "inverse_transform", "predict", "get_params", "distance", "get", "keys",
    "values", "items", "dot", "reshape", "ravel", "astype", "tolist", "format", "join",
    "split", "strip", "upper", "lower", "endswith", "startswith", "index", "count", "apply",
    "gradient_x", "diag", "item", "get_transformer", "cdf", "pdf", "copy", "min", "max",
    "sum", "mean", "argmin", "argmax", "any", "all", "find", "replace", "isdigit", "rsplit",
    "random_state", "nonzero", "cumsum", "round", "clip", "std", "var", "flatten", "transpose",
    "cumprod", "argsort", "issubset", "union", "title", "encode", "decode", "view", "squeeze",
    "__contains__", "__call__", "__getitem__", "__len__", "__eq__", "is_integer", "lstrip", "rstrip",
    "copy_with_theta", "clone_with_theta", "get_n_splits", "dtype", "kernel_", "kernel", "k1", "k2",
}
RNG_METHODS = {"rvs", "rand", "randint", "uniform", "normal", "multinomial", "permutation",
               "choice", "randn", "random_sample", "random", "generate", "sample", "standard_normal",
               "integers", "beta", "exponential", "ask"}
RETURNS_SELF = {"fit", "set_params"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse",
            "update", "setdefault", "popitem", "add", "discard"}
PERCENT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*(?:\d+)?(?:\.\d+)?)([diouxXeEfFgGcrsa%])")


def plain_spec(sp):
    # a zero flag fills up to a width; without a width it does nothing
    sp = re.sub(r"^([-+ #]*)0+(?=\.|[a-zA-Z]|$)", r"\1", sp)
    return "" if sp in ("", "s", "d", "i") else sp


def percent(a, b):
    """pieces of "..." % b"""
    if a.op == "const":
        pos, i, out, ok = 0, 0, [], True
        args = b.a[0] if b.op == "tuple" else (b,)
        for m in PERCENT.finditer(a.a[1]):
            if "%" in a.a[1][pos:m.start()]:
                ok = False
            out.append(const(a.a[1][pos:m.start()]))
            pos = m.end()
            if m.group(3) == "%":
                out.append(const("%"))
                continue
            if m.group(1):
                x = dget(b, const(m.group(1))) if b.op == "dict" else call(glob("getitem"), (b, const(m.group(1))))
            elif i < len(args):
                x = args[i]
                i += 1
            else:
                ok = False
                break
            c = m.group(3).replace("i", "d")
            w = m.group(2) or ""
            if w.strip("0123456789") == "-" or c == "s" and w.isdigit():
                w = ("<" + w.replace("-", "")) if "-" in w else ">" + w
            out.append(mk("pr", x, plain_spec(w + c)))
        out.append(const(a.a[1][pos:]))
        if ok and "%" not in a.a[1][pos:] and (i == len(args) or "(" in a.a[1]):
            return fmt_(out)
    return mk("fmt", (mk("pr", tuple_((a, b)), "%"),))


def braces(f, a, k):
    """pieces of "...".format(*a, **k)"""
    if f.op == "const" and not any(x.op == "star" for x in a) and all(n is not None for n, v in k):
        kw, out, auto = dict(k), [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(f.a[1]):
                out.append(const(lit))
                if field is None:
                    continue
                if "{" in (spec or ""):
                    raise ValueError
                if field == "":
                    x, auto = a[auto], auto + 1
                elif field.isdigit():
                    x = a[int(field)]
                else:
                    x = kw[field]
                out.append(mk("pr", x, ("" if conv in (None, "s") else conv) + plain_spec(spec or "")))
            return fmt_(out)
        except (ValueError, IndexError, KeyError):
            pass
    return mk("fmt", (mk("pr", call(glob("str.format"), (f,) + tuple(a), k), ""),))


def apart(v, n):
    """the n values of a concatenation one part of which has an unknown length"""
    if v.op == "ite":
        a, b = apart(v.a[1], n), apart(v.a[2], n)
        return v if a is v.a[1] and b is v.a[2] else ite(v.a[0], a, b)
    if v.op != "concat":
        return v
    known = [p for p in v.a[0] if p.op in ("list", "tuple")]
    if len(known) != len(v.a[0]) - 1:
        return v
    left = n - sum(len(p.a[0]) for p in known)
    if left < 0:
        return v
    out = []
    for p in v.a[0]:
        out += list(p.a[0]) if p.op in ("list", "tuple") else [sub(p, num(i)) for i in range(left)]
    return tuple_(out)


IGNORED_CALLS = ("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
ARG_MUT = {"shuffle": 0}

MAX_DEPTH = 14


class Unsupported(Exception):
    pass


class St(object):
    __slots__ = ("env", "heap", "attrs", "events")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.attrs = {}
        self.events = ()

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.events = self.events
        return s


class Frame(object):
    def __init__(self, module, cls, qual, depth, selfcls=None):
        self.module, self.cls, self.qual, self.depth = module, cls, qual, depth
        self.selfcls = selfcls or cls
        self.selfname = None
        self.locals = set()


# outcome trees: ("fall", st) ("ret", v, st) ("raise", exc, st) ("brk", st) ("cont", st) ("if", c, a, b)
def oif(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return ("if", c, a, b)


def leaves(o):
    st = [o]
    while st:
        x = st.pop()
        if x[0] == "if":
            st.append(x[3])
            st.append(x[2])
        else:
            yield x


# calls whose result is a new object with the value of an argument
VIEWERS = {"asarray", "asanyarray", "ravel", "reshape", "atleast_1d", "atleast_2d", "squeeze", "transpose", "check_array",
           "swapaxes", "view"}
UFUNC1 = {"exp", "log", "log10", "log2", "log1p", "expm1", "sqrt", "square", "reciprocal", "negative", "abs", "absolute",
          "floor", "ceil", "rint", "sign", "sin", "cos", "tan", "isfinite", "isnan", "logical_not", "invert"}
UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "power", "maximum", "minimum", "fmax", "fmin",
          "floor_divide", "mod", "remainder", "logical_and", "logical_or", "bitwise_xor", "less", "greater"}
COPIERS = {"array", "copy", "deepcopy", "list", "dict", "set"}


def branches(t):
    """the values a choice is between"""
    if t.op == "ite":
        return branches(t.a[1]) | branches(t.a[2])
    return {t}


class Ev(object):
    def __init__(self, prog, inline=(), opaque=(), spec_ns=None, pure=(), consts=None):
        self.prog = prog
        self.inline = set(inline)        # public functions to inline nevertheless
        self.opaque = set(opaque)
        self.ncell = 0
        self.closures = {}
        self.alias = {}
        self.exits = []                  # pending expression level raises
        self.guard = [TRUE]
        self.stack = []
        self.loopidx = []
        self.spec_ns = spec_ns or {}
        self.analysed = set()            # quals of functions whose body was consulted
        self.notes = []
        self.consts = consts or {}
        self.callsites = 0
        self.slotcls = {}
        self.own = False                 # keep copies visible
        self.finals = []                 # enclosing finally bodies
        self.left = {}                   # what an exception out of a call leaves changed
        self.crashing = False
        self.heads, self.leftat = set(), {}

    # ------------------------------------------------------------- heap
    def new(self, st, content):
        self.ncell += 1
        k = ("n", self.ncell)
        st.heap[k] = content
        return mk("ref", k)

    def content(self, st, k):
        c = st.heap.get(k)
        if c is None:
            if k[0] == "a":
                c = attr(self.base_full(st, k[1]), k[2])
            else:
                c = unk("cell")
        return c

    def base_full(self, st, k):
        return self.content(st, k)

    def fields(self, st, k):
        out = {}
        cid = None
        for key in st.heap:
            if key[0] == "a" and key[1] == k:
                if cid is None:
                    cid = self.content(st, k).id
                if key[3] == cid:
                    out[key[2]] = mk("ref", key)
        for (c, n), v in st.attrs.items():
            if c == k:
                out[n] = v
        return out

    def res_cell(self, st, k, seen):
        if k in seen:
            return mk("cyc", str(k))
        seen = seen | {k}
        base = self.content(st, k)
        base = self._res(st, base, seen)
        fs = []
        for n, v in sorted(self.fields(st, k).items()):
            rv = self._res(st, v, seen)
            if rv is attr(base, n):
                continue
            fs.append((n, rv))
        return obj_(base, tuple(fs)) if fs else base

    def _refs(self, t):
        """ref subterms of t"""
        if t._ref is None:
            if t.op == "ref":
                t._ref = (t,)
            else:
                out = []
                for k in kids(t):
                    for r in self._refs(k):
                        if r not in out:
                            out.append(r)
                t._ref = tuple(out)
        return t._ref

    def _res(self, st, t, seen=frozenset()):
        rs = self._refs(t)
        if not rs:
            return t
        m = {r: self.res_cell(st, r.a[0], seen) for r in rs}
        if t.op == "ref":
            return m[t]
        return subst(t, m)

    def val(self, st, t):
        return self._res(st, t)

    # -------------------------------------------------------- attributes
    def getattr_(self, st, base, name, fr):
        if base.op == "ref":
            k = base.a[0]
            if (k, name) in st.attrs:
                return st.attrs[(k, name)]
            content = self.content(st, k)
            if content.op == "glob":
                return glob(self.prog.canon(content.a[0] + "." + name))
            sc = self.cell_class(k, fr, st)
            if sc is not None:
                m = self.prog.find_method(sc, name)
                if m is not None and "property" in m.decorators():
                    return self.call_func(m, [base], [], st, fr, sc)
                if m is not None:
                    return mk("bound", base, m.qual, sc.qual)
                for kc in self.prog.mro(sc):
                    if name in kc.attrs and name not in self.prog.stored_attrs:
                        v = self.eval_in(kc.module, kc.attrs[name])
                        if v is not None:
                            return v
            if name == "T":
                return self.new(st, attr(self.val(st, base), "T"))
            ac = ("a", k, name, content.id)
            if ac not in st.heap:
                t = attr(self._res(st, content), name)
                r = self.prop(t, st)
                if r is not t:
                    return r
                st.heap[ac] = t
            return mk("ref", ac)
        if base.op == "glob":
            return glob(canon_ext(self.prog.canon(base.a[0] + "." + name)))
        if base.op == "ite" and self._refs(base):
            return ite(base.a[0], self.getattr_(st, base.a[1], name, fr),
                       self.getattr_(st, base.a[2], name, fr))
        if base.op == "super":
            return mk("superattr", base, name)
        return self.prop(attr(self.val(st, base), name), st)

    def prop(self, t, st):
        """a one-line property only one class of the package has"""
        if t.op == "attr":
            m = self.prog.lone_property(t.a[1])
            if m is not None and t.a[1] not in self.prog.stored_attrs:
                r = self.run_pure(m, t.a[0], st.copy(), m.cls)
                if r is not None and r.op == "call" and r.a[0] is glob("len"):
                    return r
        return t

    def cell_class(self, k, fr, st=None):
        """package class of the object in cell k when certain"""
        if k[0] == "p" and k[1] in self.slotcls:
            return self.slotcls[k[1]]
        return None

    def setattr_(self, st, base, name, v, fr):
        if base.op == "ref":
            k = base.a[0]
            sc = self.cell_class(k, fr)
            if sc is not None:
                s = self.prog.find_method(sc, name, setter=True)
                if s is not None:
                    self.call_func(s, [base, v], [], st, fr, sc)
                    return
            st.attrs[(k, name)] = v
            return
        if base.op == "ite":
            for which, b in ((True, base.a[1]), (False, base.a[2])):
                old = self.getattr_(st, b, name, fr)
                c = base.a[0]
                self.setattr_(st, b, name, ite(c, v, old) if which else ite(c, old, v), fr)
            return
        self.event(st, mk("setattr", self.val(st, base), name, self.val(st, v)))

    def mutate(self, st, base, fn, fr):
        """replace content of the object(s) base denotes by fn(old full value)"""
        if base.op == "ref":
            k = base.a[0]
            full = self.val(st, base)
            st.heap[k] = fn(full)
            self.wrote(st, k)
            for key in [key for key in st.attrs if key[0] == k]:
                del st.attrs[key]
            return True
        if base.op == "ite" and self._refs(base):
            c = base.a[0]
            self.mutate(st, base.a[1], lambda o: ite(c, fn(o), o), fr)
            self.mutate(st, base.a[2], lambda o: ite(c, o, fn(o)), fr)
            return True
        return False

    def event(self, st, ev):
        if ev.op == "ev" and not self.loopidx and not self.crashing and not self.own:
            self.crash(st, ev)
        st.events = st.events + (ev,)

    def crash(self, st, ev):
        """the state in which an exception raised by this call leaves"""
        self.crashing = True
        s = st.copy()
        try:
            for body, fr in reversed(self.finals):
                m = self.merge_falls(self.block(body, s.copy(), fr))
                if m is None:
                    return
                s = m[1]
            f = ev.a[0].a[0] if ev.a[0].op == "call" else None
            f = f.a[0] if getattr(f, "op", "") == "glob" else None
            self.heads.add(f)
            for loc in self.changed_from_entry(s):
                self.left.setdefault(loc, ev)
                self.leftat.setdefault((f,) + loc, ev)
        except Unsupported:
            pass
        finally:
            self.crashing = False

    def changed_from_entry(self, st):
        """attributes of the arguments that differ from what they were"""
        out = []
        for (c, n), v in st.attrs.items():
            if c[0] == "p" and self.val(st, v) is not attr(sym(c[1]), n):
                out.append((c[1], n))
        for k, v in st.heap.items():
            if k[0] == "a" and k[1][0] == "p":
                e = attr(sym(k[1][1]), k[2])
                if self._res(st, v) is not e and v is not attr(self.content(st, k[1]), k[2]):
                    out.append((k[1][1], k[2]))
        return out

    def occ(self, st, c):
        n = 0
        for e in st.events:
            n += self._count(e, c)
        return n

    def _count(self, e, c):
        if e is c:
            return 1
        if e.op == "ev":
            return 1 if e.a[0] is c else 0
        if e.op in ("evseq",):
            return sum(self._count(x, c) for x in e.a[0])
        if e.op == "ite":
            return max(self._count(e.a[1], c), self._count(e.a[2], c))
        return 0

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        s = St()
        for n in set(a.env) | set(b.env):
            x, y = a.env.get(n, UNDEF), b.env.get(n, UNDEF)
            s.env[n] = x if x is y else ite(c, x, y)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = y if k[0] != "a" else self.content(a, k)
            if y is None:
                y = x if k[0] != "a" else self.content(b, k)
            s.heap[k] = x if x is y else ite(c, x, y)
        for key in set(a.attrs) | set(b.attrs):
            k, n = key
            x, y = a.attrs.get(key), b.attrs.get(key)
            if x is None:
                x = self.default_attr(a, k, n, s)
            if y is None:
                y = self.default_attr(b, k, n, s)
            s.attrs[key] = x if x is y else ite(c, x, y)
        ea, eb = a.events, b.events
        if ea is eb or ea == eb:
            s.events = ea
        else:
            p = 0
            while p < len(ea) and p < len(eb) and ea[p] is eb[p]:
                p += 1
            s.events = ea[:p] + (ite(c, mk("evseq", ea[p:]), mk("evseq", eb[p:])),)
        return s

    def default_attr(self, st, k, n, into):
        content = self.content(st, k)
        if k not in st.heap and k[0] == "n":
            return UNDEF
        ac = ("a", k, n, content.id)
        into.heap.setdefault(ac, attr(self._res(st, content), n))
        return mk("ref", ac)

    def merge_falls(self, o, kinds=("fall",)):
        """(condition under which o falls, merged state) or None"""
        if o[0] in kinds:
            return TRUE, o[-1]
        if o[0] == "if":
            a = self.merge_falls(o[2], kinds)
            b = self.merge_falls(o[3], kinds)
            if a is None and b is None:
                return None
            if a is None:
                return and_(not_(o[1]), b[0]), b[1]
            if b is None:
                return and_(o[1], a[0]), a[1]
            return ite(o[1], a[0], b[0]), self.merge(o[1], a[1], b[1])
        return None

    def graft(self, o, k):
        if o[0] == "fall":
            return k
        if o[0] == "if":
            return oif(o[1], self.graft(o[2], k), self.graft(o[3], k))
        return o

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        """outcome of executing stmts from st"""
        if not stmts:
            return ("fall", st)
        stmts = list(stmts)
        n = 0
        while n < len(stmts):
            s = stmts[n]
            rest = stmts[n + 1:]
            save = self.exits
            self.exits = []
            o = self.stmt(s, st, fr, rest)
            ex = self.exits
            self.exits = save
            for c, e, est in reversed(ex):
                o = oif(c, ("raise", e, est), o)
            if o[0] == "fall":
                st = o[1]
                n += 1
                continue
            if not rest:
                return o
            m = self.merge_falls(o)
            if m is None:
                return o
            k = self.block(rest, m[1], fr)
            return self.graft(o, k)
        return ("fall", st)

    def stmt(self, s, st, fr, rest=()):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None:
            self.note("unsupported statement %s" % type(s).__name__, s, fr)
            return self.havoc(s, st, fr)
        return f(s, st, fr, rest)

    def note(self, msg, node, fr):
        self.notes.append("%s:%s %s" % (fr.module.rel, getattr(node, "lineno", "?"), msg))

    def havoc(self, s, st, fr):
        st = st.copy()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.env[n.id] = unk("havoc:%s" % n.id)
        self.event(st, unk("havoc"))
        return ("fall", st)

    def s_Pass(self, s, st, fr, rest):
        return ("fall", st)

    def s_Import(self, s, st, fr, rest):
        st = st.copy()
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.env[nm] = glob(a.name if a.asname else a.name.split(".")[0])
        return ("fall", st)

    def s_ImportFrom(self, s, st, fr, rest):
        st = st.copy()
        src = fr.module.absname(s.level, s.module)
        for a in s.names:
            st.env[a.asname or a.name] = glob(canon_ext(self.prog.canon(src + "." + a.name)))
        return ("fall", st)

    def s_Expr(self, s, st, fr, rest):
        if isinstance(s.value, ast.Constant):
            return ("fall", st)
        st = st.copy()
        self.ev(s.value, st, fr)
        return ("fall", st)

    def s_Global(self, s, st, fr, rest):
        return self.havoc(s, st, fr)

    s_Nonlocal = s_Global

    def s_Return(self, s, st, fr, rest):
        st = st.copy()
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        return ("ret", v, st)

    def s_Raise(self, s, st, fr, rest):
        st = st.copy()
        if s.exc is None:
            return ("raise", sym("reraise"), st)
        e = s.exc
        if isinstance(e, ast.Call):
            t = self.ev(e.func, st.copy(), fr)
            if t.op in ("closure", "bound") or t.op == "glob" and t.a[0] in self.prog.funcs or \
                    t.op == "ref" and isinstance(e.func, ast.Attribute):
                # an exception made by a helper
                st2 = st.copy()
                t = self.val(st2, self.ev(e, st2, fr))
        else:
            t = self.ev(e, st.copy(), fr)
            t = self.val(st, t)
        t = lift1(t, lambda x: x.a[0] if x.op == "call" else x)
        return ("raise", t, st)

    def s_Assert(self, s, st, fr, rest):
        st = st.copy()
        c = self.cond(s.test, st, fr)
        return oif(c, ("fall", st), ("raise", glob("AssertionError"), st))

    def s_Break(self, s, st, fr, rest):
        return ("brk", st)

    def s_Continue(self, s, st, fr, rest):
        return ("cont", st)

    def s_FunctionDef(self, s, st, fr, rest):
        st = st.copy()
        v = self.closure(s, st, fr)
        for d in reversed(s.decorator_list):
            dn = self.ev(d, st, fr)
            if dn.op == "glob" and dn.a[0] in ("functools.wraps",):
                continue
            if dn.op == "call" and dn.a[0].op == "glob" and dn.a[0].a[0] == "functools.wraps":
                continue
            dv = self.val(st, dn)
            if dv.op == "call" and dv.a[0] is glob("functools.wraps"):
                continue
            v = self.call(dn, [v], [], st, fr, d)
        st.env[s.name] = v
        # late binding of itself
        if v.op == "closure":
            self.closures[v.a[0]][1][s.name] = v
        return ("fall", st)

    def s_ClassDef(self, s, st, fr, rest):
        return self.havoc(s, st, fr)

    def s_Delete(self, s, st, fr, rest):
        st = st.copy()
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.val(st, self.ev(t.slice, st, fr))
                if not self.mutate(st, b, lambda o: delitem(o, k), fr):
                    self.event(st, mk("delitem", self.val(st, b), k))
                elif b.op == "ref" and b.a[0][0] == "a":
                    pass
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.event(st, mk("delattr", self.val(st, b), t.attr))
        return ("fall", st)

    def s_Assign(self, s, st, fr, rest):
        st = st.copy()
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return ("fall", st)

    def s_AnnAssign(self, s, st, fr, rest):
        st = st.copy()
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return ("fall", st)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                at = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                behind = len(t.elts) - 1 - at
                full = self.content(st, v.a[0]) if v.op == "ref" else v
                if full.op in ("list", "tuple") and len(full.a[0]) >= at + behind:
                    xs = full.a[0]
                    for e, x in zip(t.elts[:at], xs):
                        self.assign(e, x, st, fr)
                    self.assign(t.elts[at].value, self.new(st, list_(xs[at:len(xs) - behind])), st, fr)
                    for e, x in zip(t.elts[at + 1:], xs[len(xs) - behind:]):
                        self.assign(e, x, st, fr)
                    return
                full = self.val(st, v)
                for i, e in enumerate(t.elts):
                    if i < at:
                        self.assign(e, self.subscr(v, num(i), st), st, fr)
                    elif i > at:
                        self.assign(e, self.subscr(v, num(i - len(t.elts)), st), st, fr)
                    else:
                        sl = sub(full, slice_(num(at), num(-behind) if behind else NONE, NONE))
                        self.assign(e.value, self.new(st, aslist(sl)), st, fr)
                return
            raw = v
            if raw.op == "ref":
                c = self.content(st, raw.a[0])
                if c.op in ("list", "tuple"):
                    raw = c
            if raw.op in ("ite", "ref", "concat"):
                whole = self.val(st, raw)
                parts = apart(whole, len(t.elts))
                if parts is not whole:
                    v = raw = parts
            if raw.op in ("list", "tuple") and len(raw.a[0]) == len(t.elts):
                for e, x in zip(t.elts, raw.a[0]):
                    self.assign(e, x, st, fr)
                return
            if raw.op == "ite" and not self._refs(raw) is None:
                for i, e in enumerate(t.elts):
                    self.assign(e, self.subscr(raw, num(i), st), st, fr)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.subscr(v, num(i), st), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr_(st, b, t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, st, fr)
        else:
            self.note("assign target", t, fr)

    def subscr(self, v, i, st):
        """v[i] keeping references for literal containers"""
        if v.op == "ite" and self._refs(v):
            return ite(v.a[0], self.subscr(v.a[1], i, st), self.subscr(v.a[2], i, st))
        if v.op == "ref":
            c = self.content(st, v.a[0])
            if self._refs(c) and c.op in ("list", "tuple", "dict", "concat"):
                r = sub(c, i)
                if r.op in ("ref",) or not self._refs(r):
                    return r
        if v.op in ("list", "tuple") and self._refs(v):
            return sub(v, i)
        return sub(self.val(st, v), i)

    def items_are_fields(self, st, b):
        """b is a scipy result, whose items are its attributes"""
        if b.op != "ref":
            return False
        c = self.content(st, b.a[0])
        if c.op == "obj":
            c = c.a[0]
        return c.op == "call" and c.a[0] is glob("scipy.optimize.OptimizeResult")

    def store_sub(self, t, v, st, fr):
        b = self.ev(t.value, st, fr)
        k = self.val(st, self.ev(t.slice, st, fr))
        if k.op == "const" and k.a[0] == "str" and self.items_are_fields(st, b):
            self.setattr_(st, b, k.a[1], v, fr)
            return

        def upd(o):
            return setitem(o, k, v)
        if self.mutate(st, b, upd, fr):
            return
        if isinstance(t.value, ast.Name):
            st.env[t.value.id] = setitem(self.val(st, b), k, self.val(st, v))
            return
        if isinstance(t.value, ast.Subscript) and not isinstance(t.value.slice, ast.Slice):
            self.store_sub(t.value, setitem(self.val(st, b), k, self.val(st, v)), st, fr)
            return
        self.event(st, mk("setitem_ev", self.val(st, b), k, self.val(st, v)))

    def s_AugAssign(self, s, st, fr, rest):
        st = st.copy()
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr)
            r = self.ev(s.value, st, fr)
            if old.op == "ref" and self.mutable_cell(st, old, fr) and isinstance(
                    s.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.Mod, ast.FloorDiv)):
                rv = r
                cont = self.content(st, old.a[0])
                if isinstance(s.op, ast.Add) and is_seq(cont):
                    rr = self.content(st, r.a[0]) if r.op == "ref" else r
                    st.heap[old.a[0]] = concat((cont, aslist(rr)))
                else:
                    new = self.binop(s.op, self.val(st, old), self.val(st, rv))
                    st.heap[old.a[0]] = new
                    self.wrote(st, old.a[0])
            else:
                st.env[t.id] = self.binop(s.op, self.val(st, old), self.val(st, r))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            old = self.getattr_(st, b, t.attr, fr)
            r = self.ev(s.value, st, fr)
            if old.op == "ref" and old.a[0][0] == "n" :
                st.heap[old.a[0]] = self.binop(s.op, self.val(st, old), self.val(st, r))
                self.setattr_(st, b, t.attr, old, fr)
            else:
                self.setattr_(st, b, t.attr, self.binop(s.op, self.val(st, old), self.val(st, r)), fr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.val(st, self.ev(t.slice, st, fr))
            r = self.val(st, self.ev(s.value, st, fr))

            def upd(o):
                return setitem(o, k, self.binop(s.op, sub(o, k), r))
            if not self.mutate(st, b, upd, fr):
                if isinstance(t.value, ast.Name):
                    st.env[t.value.id] = upd(self.val(st, b))
                else:
                    self.event(st, mk("setitem_ev", self.val(st, b), k, r))
        return ("fall", st)

    def mutable_cell(self, st, r, fr):
        k = r.a[0]
        if k[0] == "n":
            return True
        if k[0] == "a":
            return k[2] in self.mutable_fields()
        return k[0] == "p" and k[1] in self.array_params()

    def array_params(self):
        """parameters of the function under analysis that are documented as arrays or lists"""
        r = getattr(self, "_array_params", None)
        if r is None:
            r, f = set(), getattr(self, "top", None)
            doc = (ast.get_docstring(f.node) or "") if f is not None else ""
            for m in re.finditer(r"^\s*\*? ?`?([A-Za-z_0-9, ]+)`? ?(?::|\[)(.*)$", doc, re.M):
                if re.search(r"array|list", m.group(2)):
                    r |= {x.strip() for x in m.group(1).split(",")}
            self._array_params = r
        return r

    def mutable_fields(self):
        mf = getattr(self.prog, "_mutable_fields", None)
        if mf is None:
            mf = set()
            bad = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                v = n.value
                                if isinstance(v, (ast.List, ast.Dict, ast.ListComp, ast.Set)):
                                    mf.add(t.attr)
                                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                                        and isinstance(v.func.value, ast.Name) and v.func.value.id == "np" \
                                        and v.func.attr in ("zeros", "ones", "array", "copy", "asarray", "empty", "tile"):
                                    mf.add(t.attr)
            self.prog._mutable_fields = mf
        return mf

    def s_If(self, s, st, fr, rest):
        st = st.copy()
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        a = self.block(s.body, st.copy(), fr)
        b = self.block(s.orelse, st.copy(), fr)
        if a[0] == "fall" and b[0] == "fall":
            return ("fall", self.merge(c, a[1], b[1]))
        return oif(c, a, b)

    def s_With(self, s, st, fr, rest):
        st = st.copy()
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def reduce(self, args, st, fr):
        """functools.reduce(f, xs[, first]) as the loop it is"""
        if len(args) < 3:
            return None
        n = self._reduces = getattr(self, "_reduces", 0) + 1
        f, xs, acc, x = ("_reduce%d%s" % (n, c) for c in "fxai")
        src = ast.parse("for %s in %s:\n    %s = %s(%s, %s)" % (x, xs, acc, f, acc, x)).body
        for m in ast.walk(src[0]):
            if hasattr(m, "lineno"):
                m.lineno += 100000 + n
        s2 = st.copy()
        s2.env[f], s2.env[xs], s2.env[acc] = args
        m = self.merge_falls(self.block(src, s2, fr))
        if m is None:
            return None
        s2 = m[1]
        r = s2.env[acc]
        for nm in (f, xs, acc, x):
            s2.env.pop(nm, None)
        for a in s2.__slots__ if hasattr(s2, "__slots__") else s2.__dict__:
            setattr(st, a, getattr(s2, a))
        return r

    def lookup_else(self, s):
        """try: ... d[k] ... except KeyError: ...   as a question to d"""
        r = getattr(s, "_lookup_else", None)
        if r is None:
            r = s._lookup_else = self._lookup_else(s) or s
        return r

    def _lookup_else(self, s):
        if len(s.handlers) != 1 or s.finalbody or len(s.body) != 1:
            return None
        h, b = s.handlers[0], s.body[0]
        if h.name or not (isinstance(h.type, ast.Name) and h.type.id == "KeyError"):
            return None
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
            e = b.value
        elif isinstance(b, ast.Return):
            e = b.value
        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                and b.value.func.attr == "append" and len(b.value.args) == 1 and isinstance(b.value.func.value, ast.Name):
            e = b.value.args[0]
        else:
            return None
        simple = lambda x: isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
        if not (isinstance(e, ast.Subscript) and simple(e.value) and (simple(e.slice) or isinstance(e.slice, ast.Constant))):
            return None
        test = ast.Compare(left=e.slice, ops=[ast.In()], comparators=[e.value])
        n = ast.If(test=test, body=[b] + s.orelse, orelse=h.body)
        return ast.fix_missing_locations(ast.copy_location(n, s))

    def s_Try(self, s, st, fr, rest):
        n = self.lookup_else(s)
        if n is not s:
            return self.block([n], st.copy(), fr)
        if s.handlers:
            self.note("try/except", s, fr)
            was, self.crashing = self.crashing, True      # what a handler makes of it is not followed
            try:
                o = self.block(s.body, st.copy(), fr)
            finally:
                self.crashing = was
            m = self.merge_falls(o)
            alts = []
            for h in s.handlers:
                s2 = st.copy()
                if h.name:
                    s2.env[h.name] = unk("exc")
                alts.append(self.block(h.body, s2, fr))
            for a in alts:
                o = oif(mk("truth", unk("exception:%d" % s.lineno)), a, o)
        else:
            if s.finalbody:
                self.finals.append((s.finalbody, fr))
            try:
                o = self.block(s.body, st.copy(), fr)
            finally:
                if s.finalbody:
                    self.finals.pop()
        if s.orelse:
            m = self.merge_falls(o)
            if m is not None:
                o = self.graft(o, self.block(s.orelse, m[1], fr))
        if s.finalbody:
            o = self.finally_(o, s.finalbody, fr)
        return o

    def finally_(self, o, body, fr):
        if o[0] == "if":
            return oif(o[1], self.finally_(o[2], body, fr), self.finally_(o[3], body, fr))
        f = self.block(body, o[-1], fr)
        m = self.merge_falls(f)
        if m is None:
            return f
        return self.graft(f, o[:-1] + (m[1],))

    # ----------------------------------------------------------------- loops
    def by_generator(self, s):
        """`for x in (e for y in ys if c): ...` as `for y in ys: if c: x = e; ...`"""
        r = getattr(s, "_by_gen", None)
        if r is None:
            r = s
            g = s.iter
            if isinstance(g, ast.GeneratorExp) and len(g.generators) == 1 and not s.orelse and not g.generators[0].is_async:
                import copy as _c
                c = g.generators[0]
                names = {n.id for n in ast.walk(c.target) if isinstance(n, ast.Name)}

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        if n.id in names:
                            return ast.copy_location(ast.Name(id="_gen_" + n.id, ctx=n.ctx), n)
                        return n
                if not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(g.elt)):
                    body = [ast.Assign(targets=[s.target], value=R().visit(_c.deepcopy(g.elt)))] + s.body
                    for q in reversed(c.ifs):
                        body = [ast.If(test=R().visit(_c.deepcopy(q)), body=body, orelse=[])]
                    r = ast.For(target=R().visit(_c.deepcopy(c.target)), iter=c.iter, body=body, orelse=[])
                    ast.copy_location(r, s)
                    for b in r.body:
                        ast.copy_location(b, s)
                    ast.fix_missing_locations(r)
            s._by_gen = r
        return r

    def by_index(self, s):
        """`for x in xs` whose body changes x in place, as a loop over positions"""
        r = getattr(s, "_by_index", None)
        if r is None:
            r = s._by_index = self._by_index(s) or s
        return r

    def _by_index(self, s):
        simple = lambda e: isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name)
        it, t = s.iter, s.target
        call_ = isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords and all(simple(x) for x in it.args)
        pairs, pos = None, None
        if simple(it) and isinstance(t, ast.Name):
            pairs = [(t, it)]
        elif call_ and it.func.id == "enumerate" and len(it.args) == 1 and isinstance(t, ast.Tuple) and len(t.elts) == 2 \
                and all(isinstance(x, ast.Name) for x in t.elts):
            pairs, pos = [(t.elts[1], it.args[0])], t.elts[0]
        elif call_ and it.func.id == "zip" and it.args and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args) \
                and all(isinstance(x, ast.Name) for x in t.elts):
            pairs = list(zip(t.elts, it.args))
        if not pairs:
            return None
        names = {n.id: e for n, e in pairs}
        hit = False
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LIST_MUT \
                        and isinstance(x.func.value, ast.Name) and x.func.value.id in names:
                    hit = True
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id in names:
                    hit = True
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.id in names or any(
                        isinstance(y, ast.Name) and y.id == x.id for n, e in pairs for y in [e])):
                    return None
                if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                    return None
        if not hit:
            return None
        import copy as _c
        i = pos.id if pos is not None else "_position_%d" % s.lineno

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names and isinstance(n.ctx, ast.Load):
                    return ast.copy_location(ast.Subscript(value=_c.deepcopy(names[n.id]), slice=ast.Name(id=i, ctx=ast.Load()), ctx=ast.Load()), n)
                return n
        lens = [ast.Call(func=ast.Name(id="len", ctx=ast.Load()), args=[_c.deepcopy(e)], keywords=[]) for n, e in pairs]
        n = lens[0] if len(lens) == 1 else ast.Call(func=ast.Name(id="min", ctx=ast.Load()), args=lens, keywords=[])
        new = ast.For(target=ast.Name(id=i, ctx=ast.Store()),
                      iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[n], keywords=[]),
                      body=[R().visit(_c.deepcopy(b)) for b in s.body], orelse=s.orelse, type_comment=None)
        return ast.fix_missing_locations(ast.copy_location(new, s))

    def s_For(self, s, st, fr, rest):
        st = st.copy()
        s = self.by_generator(s)
        s = self.by_index(s)
        it = self.ev(s.iter, st, fr)
        dom, el = self.domain(it, st)
        body = s.body
        body = self.return_to_break(body, s, rest)
        return self.loop(dom, el, s.target, None, body, s.orelse, st, fr, s)

    def s_While(self, s, st, fr, rest):
        st = st.copy()
        body = self.return_to_break(s.body, s, rest)
        return self.loop(INF, None, None, s.test, body, s.orelse, st, fr, s)

    def return_to_break(self, body, s, rest):
        """`return <simple>` in a loop that is followed by just that is a `break`"""
        if not rest or s.orelse or not isinstance(rest[0], ast.Return):
            return body
        v = rest[0].value
        if v is not None and not isinstance(v, (ast.Name, ast.Constant)):
            return body
        d = None if v is None else ast.dump(v)

        class R(ast.NodeTransformer):
            def visit_For(self, n):
                return n
            visit_While = visit_FunctionDef = visit_Lambda = visit_Try = visit_For

            def visit_Return(self, n):
                if (None if n.value is None else ast.dump(n.value)) == d:
                    return ast.copy_location(ast.Break(), n)
                return n
        import copy as _c
        if not any(isinstance(x, ast.Return) for b in body for x in ast.walk(b)):
            return body
        return [R().visit(_c.deepcopy(b)) for b in body]

    def run_pure(self, m, base, st, sc):
        """value of a method without arguments, or None"""
        b = [x for x in m.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(b) != 1 or not isinstance(b[0], ast.Return) or b[0].value is None:
            return None
        fr = Frame(m.module, m.cls, m.qual, 1, sc)
        fr.selfname = m.node.args.args[0].arg
        st.env = {fr.selfname: base}
        r = self.ev(b[0].value, st, fr)
        if r.op == "call" and r.a[0] is glob("iter"):
            r = r.a[1][0]
        return r

    def domain(self, it, st):
        """(length, element function) of an iterable value"""
        raw = it
        if it.op == "ref":
            raw = self.content(st, it.a[0])
        if raw.op == "closure":
            raw = self.val(st, raw)
        if raw.op == "call" and raw.a[0].op == "glob":
            f, a = raw.a[0].a[0], raw.a[1]
            if f == "zip" and a:
                ds = [self.domain(x, st) for x in a]
                lens = []
                for d, e in ds:
                    if d not in lens and d is not INF:
                        lens.append(d)
                n = lens[0] if lens else INF
                for d in lens[1:]:
                    n = call(glob("min2"), (n, d))
                return n, (lambda i: tuple_([e(i) for d, e in ds]))
            if f == "enumerate" and a:
                d, e = self.domain(a[0], st)
                start = a[1] if len(a) > 1 else dict(raw.a[2]).get("start", ZERO)
                return d, (lambda i: tuple_([add(i, start), e(i)]))
            if f == "itertools.count" and len(a) <= 1:
                start = a[0] if a else dict(raw.a[2]).get("start", ZERO)
                return INF, (lambda i: add(i, start))
            if f == "range":
                if len(a) == 1:
                    return a[0], (lambda i: i)
                if len(a) == 2:
                    return sub_(a[1], a[0]), (lambda i: add(a[0], i))
                if len(a) == 3 and a[2].op == "num":
                    if a[2].a[0] == -1:
                        return sub_(a[0], a[1]), (lambda i: sub_(a[0], i))
                return call(glob("len"), (raw,)), (lambda i: sub(raw, i))
            if f == "dictitems":
                x = a[0]
                if x.op == "dict":
                    l = list_([tuple_([k, v]) for k, v in x.a[0]])
                    return length(l), (lambda i: elem(l, i))
                return length(x), (lambda i: tuple_([elem(x, i), sub(x, elem(x, i))]))
            if f == "dictvalues":
                x = a[0]
                return length(x), (lambda i: sub(x, elem(x, i)))
            if f == "dictkeys":
                x = a[0]
                return length(x), (lambda i: elem(x, i))
            if f in ("list", "iter", "tuple"):
                if len(a) == 1 and f != "tuple":
                    x = a[0]
                    if x.op in ("sym", "attr", "sub", "call", "map", "list"):
                        return self.domain(x, st)
        if raw.op == "ite":
            pass
        if raw.op in ("list", "tuple") and self._refs(raw):
            n = num(len(raw.a[0]))
            rr = raw
            return n, (lambda i: sub(rr, i))
        if it.op == "ref":
            # an object of the package that says how it is iterated
            sc = self.cell_class(it.a[0], None)
            m = sc is not None and self.prog.find_method(sc, "__iter__")
            if m:
                s2 = st.copy()
                r = self.run_pure(m, it, s2, sc)
                if r is not None:
                    return self.domain(r, s2)
        v = self.val(st, it)
        if v.op == "call" and v.a[0].op == "glob" and v is not raw and v.a[0].a[0] in ("zip", "enumerate", "range", "dictitems", "dictvalues", "dictkeys"):
            return self.domain(v, st)
        return length(v), (lambda i: elem(v, i))

    def loop(self, dom, el, target, test, body, orelse, st, fr, node):
        try:
            return self._loop(dom, el, target, test, body, orelse, st, fr, node)
        except Unsupported as e:
            self.note("loop: %s" % e, node, fr)
            return self.havoc(node, st, fr)

    def _loop(self, dom, el, target, test, body, orelse, st, fr, node):
        # constant small trip counts over literal containers: unroll
        if test is None and dom.op == "num" and dom.a[0].denominator == 1 and 0 <= dom.a[0] <= 6 and not orelse:
            return self.unroll(int(dom.a[0]), el, target, body, st, fr)
        idx = fresh_tmp()
        self.loopidx.append(idx)
        ncell0 = self.ncell
        changed = {}
        try:
            for attempt in range(6):
                st2 = st.copy()
                slots = {}
                for key in sorted(changed, key=str):
                    init = changed[key]
                    typ = "any"
                    iv = init
                    if iv is not UNDEF:
                        if is_seq(iv):
                            typ = "seq"
                        elif is_intlike(iv):
                            typ = "int"
                        elif iv.op in ("dict", "dset", "dictof", "ddel"):
                            typ = "dict"
                    sl = mk("slot", next_slot(), typ)
                    slots[key] = sl
                    if key[0] == "env":
                        st2.env[key[1]] = sl if init is not UNDEF else UNDEF
                    elif key[0] == "heap":
                        st2.heap[key[1]] = sl
                    else:
                        st2.attrs[key[1]] = sl
                st2.events = ()
                base = st2.copy()
                stop_test = FALSE
                if test is not None:
                    tc = self.cond(test, st2, fr)
                    stop_test = not_(tc)
                if target is not None:
                    self.assign(target, el(idx), st2, fr)
                o = self.block(body, st2, fr)
                # what changed
                newch = {}
                for lf in leaves(o):
                    s2 = lf[-1]
                    for n, v in s2.env.items():
                        if v is not base.env.get(n, UNDEF):
                            newch[("env", n)] = 1
                    for k, v in s2.heap.items():
                        if k in base.heap:
                            if base.heap[k] is not v:
                                newch[("heap", k)] = 1
                        elif k[0] == "a" and v is not attr(self._res(base, self.content(base, k[1])) if k[1] in base.heap or k[1][0] != "n" else UNDEF, k[2]):
                            if root(k) in base.heap or root(k)[0] == "p":
                                newch[("heap", k)] = 1
                    for key, v in s2.attrs.items():
                        if base.attrs.get(key) is not v:
                            rk = root(key[0])
                            if rk[0] == "n" and rk not in base.heap:
                                continue
                            newch[("attr", key)] = 1
                add_ = [k for k in newch if k not in changed]
                if not add_:
                    break
                for k in add_:
                    if k[0] == "env":
                        v = st.env.get(k[1], UNDEF)
                        changed[k] = v if v is UNDEF else self.val(st, v)
                    elif k[0] == "heap":
                        changed[k] = self._res(st, self.content(st, k[1]))
                    else:
                        cell, n = k[1]
                        v = st.attrs.get(k[1])
                        if v is None:
                            if (cell not in st.heap and cell[0] == "n"):
                                v = UNDEF
                            else:
                                v = attr(self._res(st, self.content(st, cell)), n)
                        changed[k] = self.val(st, v)
            else:
                raise Unsupported("no fixpoint of the carried set")
        finally:
            self.loopidx.pop()
        keys = sorted(slots, key=str)
        nxt = self.merge_falls(o, ("fall", "cont"))
        stops = [lf for lf in leaves(o) if lf[0] in ("brk", "ret", "raise")]

        def value(key, s2):
            if key[0] == "env":
                v = s2.env.get(key[1], UNDEF)
            elif key[0] == "heap":
                v = self.content(s2, key[1])
            else:
                v = s2.attrs.get(key[1])
                if v is None:
                    v = attr(self._res(s2, self.content(s2, key[1][0])), key[1][1])
            return self._res(s2, v)

        inits = {k: changed[k] for k in keys}
        if nxt is not None:
            upd = {k: value(k, nxt[1]) for k in keys}
            evs = self.evlist(nxt[1])
        else:
            upd = {k: slots[k] for k in keys}
            evs = list_([])
        evslot = mk("slot", next_slot(), "seq")
        ek = ("events",)
        upd[ek] = concat((evslot, evs)) if evs.op != "list" or evs.a[0] else evslot
        slots[ek] = evslot
        inits[ek] = list_([])
        allkeys = keys + [ek]

        stopcond = FALSE
        if stops:
            stopcond = self.stop_cond(o)
        pure_search = False
        if (stops or test is not None):
            # counted while
            if test is not None:
                r = self.counted(stop_test, upd, slots, inits, idx)
                if r is not None:
                    key, n, start, step = r
                    dom = n
                    if key is None:
                        # as long as what grows by one is too short
                        key, start, step = object(), ZERO, ONE
                        sub_map = {}
                    else:
                        sub_map = {slots[key]: add(start, mul(step, idx))}
                        for k in allkeys:
                            upd[k] = subst(upd[k], sub_map)
                        upd[key] = add(start, mul(step, idx), step)
                    # initial value expressed through the index
                    o = self.osubst(o, sub_map)
                    stopcond = subst(stopcond, sub_map)
                    stops = [lf for lf in leaves(o) if lf[0] in ("brk", "ret", "raise")]
                    counted_key = key
                    finals0 = {key: add(start, mul(step, n))} if key in slots else {}
                    test = None
                else:
                    finals0 = {}
            else:
                finals0 = {}
        else:
            finals0 = {}

        if not stops and test is None:
            fin, body_map = self.closed(dom, idx, allkeys, slots, inits, upd)
            fin.update(finals0)
            st3 = self.install(st, fin, keys, inits, st)
            evt = fin[ek]
            if not (evt.op == "list" and not evt.a[0]):
                self.event(st3, mk("evloop", evt))
            if target is not None:
                self.assign_last(target, el, dom, st3, fr)
            if orelse:
                return self.block(orelse, st3, fr)
            return ("fall", st3)

        # loops that can stop early ------------------------------------
        # (a) pure search: nothing carried, nothing emitted before the stop
        inv = {}
        if nxt is not None:
            for k in allkeys:
                if upd[k] is slots[k]:
                    inv[slots[k]] = inits[k]
        if test is None:
            # counters kept by hand
            count = {}
            if nxt is not None and stops and dom is not INF:
                for k in keys:
                    if k[0] == "env" and upd[k] is not slots[k] and inits[k] is not UNDEF and not is_seq(inits[k]) \
                            and inits[k].op in ("num", "poly"):
                        d = lindiff(upd[k], slots[k])
                        if d is not None and d.op == "num":
                            count[k] = d
                            inv[slots[k]] = add(inits[k], mul(idx, d))
            temp_only = all(upd[k] is slots[k] or inits[k] is UNDEF or k in count for k in allkeys) if nxt is not None else True
            if temp_only:
                body_o = self.osubst(o, inv)
                c = subst(stopcond, inv)
                used_tmp = any(mentions(c, {slots[k]}) for k in allkeys if slots[k] not in inv)
                if not used_tmp:
                    anyc = any_map(dom, c, idx)
                    fi = first_(dom, c, idx)
                    ex = self.only_stops(body_o)
                    if mentions_o(ex, idx):
                        ex = self.osubst(ex, {idx: fi})
                    ex = self.reroot(ex, st, slots, inits, keys)
                    done = ("fall", st.copy())
                    for k, d in count.items():
                        done[1].env[k[1]] = add(inits[k], mul(dom, d))
                    if orelse:
                        done = self.block(orelse, done[1], fr)
                    r = oif(anyc, self.brk2fall(ex), done)
                    return r
        # (b) general
        kind = ("kind",)
        retk = ("retv",)
        for kk, ini in ((kind, ZERO), (retk, UNDEF)):
            slots[kk] = mk("slot", next_slot(), "any")
            inits[kk] = ini
        allk = allkeys + [kind, retk]
        full = {}
        for k in allk:
            full[k] = self.otree(o, k, value, slots, evslot, upd, ek, kind, retk)
        stop_all = stopcond
        if test is not None:
            for k in allk:
                full[k] = ite(stop_test, slots[k], full[k])
            stop_all = or_(stop_test, stopcond)
        # substitute invariants and inductions valid on the continuing path
        sm = {}
        for k in allkeys:
            if full[k] is slots[k]:
                sm[slots[k]] = inits[k]
        if test is None and dom is not INF and nxt is not None:
            for k in allkeys:
                if slots[k] in sm:
                    continue
                d = lindiff(upd[k], slots[k])
                if d is not None and d.op == "num" and inits[k] is not UNDEF:
                    sm[slots[k]] = add(inits[k], mul(idx, d))
        if sm:
            for k in allk:
                if slots[k] not in sm:
                    full[k] = subst(full[k], sm)
            stop_all = subst(stop_all, sm)
        order = [k for k in allk if slots[k] not in sm or full[k] is not slots[k]]
        sl = [slots[k] for k in allk]
        ini = [inits[k] for k in allk]
        up = [full[k] for k in allk]

        def out(k):
            n = allk.index(k)
            if full[k] is slots[k]:
                return inits[k]
            if slots[k] in sm:
                # induction variable inside, but its final value depends on the exit
                return loop_(dom, ini, [x if j != n else x for j, x in enumerate(up)], stop_all, n, idx, sl)
            return loop_(dom, ini, up, stop_all, n, idx, sl)
        fin = {k: out(k) for k in allk}
        st3 = self.install(st, fin, keys, inits, st)
        evt = fin[ek]
        if not (evt.op == "list" and not evt.a[0]):
            self.event(st3, mk("evloop", evt))
        kinds = set(lf[0] for lf in stops)
        kv = fin[kind]
        res = ("fall", st3)
        if orelse:
            res = oif(eq(kv, ONE), ("fall", st3), self.block(orelse, st3.copy(), fr))
        if "ret" in kinds:
            res = oif(eq(kv, num(2)), ("ret", fin[retk], st3), res)
        if "raise" in kinds:
            res = oif(eq(kv, num(3)), ("raise", fin[retk], st3), res)
        return res

    def unroll(self, n, el, target, body, st, fr):
        def go(i, st):
            if i == n:
                return ("fall", st)
            st = st.copy()
            self.assign(target, el(num(i)), st, fr)
            o = self.block(body, st, fr)
            m = self.merge_falls(o, ("fall", "cont"))
            if m is None:
                return self.brk2fall(o)
            k = go(i + 1, m[1])
            return self.graft2(o, k)
        return go(0, st)

    def graft2(self, o, k):
        if o[0] in ("fall", "cont"):
            return k
        if o[0] == "brk":
            return ("fall", o[1])
        if o[0] == "if":
            return oif(o[1], self.graft2(o[2], k), self.graft2(o[3], k))
        return o

    def evlist(self, st):
        return list_([mk("evseq", st.events)]) if st.events else list_([])

    def brk2fall(self, o):
        if o[0] == "brk":
            return ("fall", o[1])
        if o[0] == "if":
            return oif(o[1], self.brk2fall(o[2]), self.brk2fall(o[3]))
        return o

    def stop_cond(self, o):
        if o[0] == "if":
            return ite(o[1], self.stop_cond(o[2]), self.stop_cond(o[3]))
        return TRUE if o[0] in ("brk", "ret", "raise") else FALSE

    def only_stops(self, o):
        if o[0] == "if":
            a, b = self.only_stops(o[2]), self.only_stops(o[3])
            if a is None:
                return b
            if b is None:
                return a
            return oif(o[1], a, b)
        return o if o[0] in ("brk", "ret", "raise") else None

    def otree(self, o, k, value, slots, evslot, upd, ek, kind, retk):
        if o[0] == "if":
            return ite(o[1], self.otree(o[2], k, value, slots, evslot, upd, ek, kind, retk),
                       self.otree(o[3], k, value, slots, evslot, upd, ek, kind, retk))
        s2 = o[-1]
        if k == kind:
            return {"fall": ZERO, "cont": ZERO, "brk": ONE, "ret": num(2), "raise": num(3)}[o[0]]
        if k == retk:
            if o[0] == "ret":
                return self.val(s2, o[1])
            if o[0] == "raise":
                return o[1]
            return UNDEF
        if k == ek:
            e = self.evlist(s2)
            return concat((evslot, e)) if e.a[0] else evslot
        return value(k, s2)

    def osubst(self, o, m):
        if not m or o is None:
            return o
        if o[0] == "if":
            return oif(subst(o[1], m), self.osubst(o[2], m), self.osubst(o[3], m))
        s = self.stsubst(o[-1], m)
        if o[0] in ("ret", "raise"):
            return (o[0], subst(o[1], m), s)
        return (o[0], s)

    def stsubst(self, st, m):
        s = St()
        s.env = {k: subst(v, m) for k, v in st.env.items()}
        s.heap = {k: subst(v, m) for k, v in st.heap.items()}
        s.attrs = {k: subst(v, m) for k, v in st.attrs.items()}
        s.events = tuple(subst(e, m) for e in st.events)
        return s

    def reroot(self, o, st, slots, inits, keys):
        """prefix the events emitted before the loop"""
        if o[0] == "if":
            return oif(o[1], self.reroot(o[2], st, slots, inits, keys), self.reroot(o[3], st, slots, inits, keys))
        s = o[-1].copy()
        s.events = st.events + s.events
        return o[:-1] + (s,)

    def counted(self, stop_test, upd, slots, inits, idx):
        """while i < B: ...; i += c   ->  (key, trip count, start, step)"""
        neg_ = not_(stop_test)
        atom, pos = neg_, True
        if atom.op == "ite" and atom.a[1] is FALSE and atom.a[2] is TRUE:
            atom, pos = atom.a[0], False
        if atom.op != "lt":
            return None
        d = atom.a[0]
        for k, s in slots.items():
            if s.a[1] == "seq" and pos:
                l = length(s)
                rest = sub_(d, l)
                if is_intlike(l) and not mentions(rest, {s}) and lindiff(length(upd[k]), l) is ONE and not mentions(
                        rest, set(slots.values()) - set(v for kk, v in slots.items() if upd[kk] is v)):
                    rest = subst(rest, {v: inits[kk] for kk, v in slots.items() if upd[kk] is v})
                    return None, sub_(neg(rest), length(inits[k])), ZERO, ONE
            step = lindiff(upd[k], s)
            if step is None or step.op != "num":
                continue
            p = to_poly(d)
            c = p.get(((s, F(1)),))
            if c is None or abs(c) != 1 or abs(step.a[0]) != 1:
                continue
            rest = sub_(d, scale(s, c))
            if mentions(rest, set(slots.values()) - set(v for kk, v in slots.items() if upd[kk] is v)):
                continue
            rest = subst(rest, {v: inits[kk] for kk, v in slots.items() if upd[kk] is v})
            start = inits[k]
            if start is UNDEF:
                continue
            if pos and c == 1 and step is ONE:         # i + rest < 0
                return k, sub_(neg(rest), start), start, step
            if not pos and c == -1 and step is ONE and is_intlike(rest):   # not(-i+rest<0): i<=rest
                return k, add(sub_(rest, start), ONE), start, step
            if pos and c == -1 and step.a[0] == -1:      # -i + rest < 0 : i > rest, counting down
                return k, sub_(start, rest), start, step
            if not pos and c == 1 and step.a[0] == -1 and is_intlike(rest):   # not(i+rest<0): i >= -rest
                return k, add(start, rest, ONE), start, step
        return None

    def closed(self, dom, idx, keys, slots, inits, upd):
        """closed forms of carried values after idx ran over range(dom)"""
        upd = dict(upd)
        for k in keys:
            v = inits[k]
            if v is UNDEF or v.op != "tuple" or not 0 < len(v.a[0]) <= 4 or upd[k] is slots[k]:
                continue
            n = len(v.a[0])
            if any(x is not slots[k] and not (x.op == "tuple" and len(x.a[0]) == n) for x in branches(upd[k])):
                continue
            # a tuple carried along is its components carried along
            new = [(k, "part", j) for j in range(n)]
            parts = [mk("slot", next_slot(), "any") for j in new]
            m = {slots[k]: tuple_(parts)}
            slots2, inits2 = dict(slots), dict(inits)
            upd = {j: subst(u, m) for j, u in upd.items()}
            whole = upd.pop(k)
            for j, key in enumerate(new):
                slots2[key], inits2[key] = parts[j], v.a[0][j]
                upd[key] = sub(whole, num(j))
            fin, x = self.closed(dom, idx, [j for j in keys if j is not k] + new, slots2, inits2, upd)
            if fin is not None:
                fin[k] = tuple_([fin.pop(key) for key in new])
            return fin, x
        fin = {}
        todo = list(keys)

        def substall(m):
            for k in todo:
                upd[k] = subst(upd[k], m)
        progress = True
        while progress:
            progress = False
            for k in list(todo):
                s = slots[k]
                if upd[k] is s:
                    fin[k] = inits[k]
                    todo.remove(k)
                    substall({s: inits[k]})
                    progress = True
                    continue
                d = lindiff(upd[k], s) if inits[k] is not UNDEF and not is_seq(inits[k]) else None
                if d is not None and not mentions(d, {slots[j] for j in todo}) and not mentions(d, {idx}) and d.op == "num" and (is_intlike(inits[k])):
                    fin[k] = add(inits[k], mul(dom, d))
                    todo.remove(k)
                    substall({s: add(inits[k], mul(idx, d))})
                    progress = True
        # independent closed forms
        ss = {slots[j] for j in todo}

        def used_elsewhere(k):
            return any(mentions(upd[j], {slots[k]}) for j in todo if j is not k)
        gen = []
        for k in todo:
            s = slots[k]
            u = upd[k]
            r = None
            if not mentions(u, ss):
                r = subst(u, {idx: sub_(dom, ONE)})
                if inits[k] is not UNDEF:
                    r = ite(lt(neg(dom)), r, inits[k])
            if r is None and inits[k] is not UNDEF:
                r = self.closed_one(u, s, inits[k], dom, idx, ss)
            if r is not None:
                fin[k] = r
                continue
            gen.append(k)
        if gen:
            order = list(todo)
            for k in gen:
                fin[k] = loop_(dom, [inits[j] for j in order], [upd[j] for j in order], FALSE,
                               order.index(k), idx, [slots[j] for j in order])
        return fin, None

    def closed_one(self, u, s, init, dom, idx, ss):
        # sequence append
        parts = append_parts(u, s)
        if parts is not None:
            # list of (cond, [terms]) alternatives
            if not any(mentions(c, ss) or any(mentions(p, ss) for p in ps) for c, ps in parts):
                return append_closed(init, parts, dom, idx)
            return None
        d = lindiff(u, s)
        if d is not None and not mentions(d, ss):
            return add(init, call(glob("sum"), (map_(dom, d, idx),)))
        if u.op == "dset" and u.a[0] is s and not mentions(u.a[1], ss) and not mentions(u.a[2], ss):
            pairs = map_(dom, tuple_([u.a[1], u.a[2]]), idx)
            d = call(glob("dict"), (pairs,))
            if init.op == "dict" and not init.a[0]:
                return d
            return mk("dupd", init, d)
        if u.op == "setitem" and u.a[0] is s and u.a[1] is idx and mentions(u.a[2], {s}):
            # every item is replaced by a function of itself
            item = sub(s, idx)
            e = mk("slot", next_slot(), "any")
            f = subst(u.a[2], {item: e})
            if not mentions(f, ss):
                n = length(init)
                f = subst(f, {e: sub(init, idx)})
                return map_(dom, f, idx) if n is dom else map_(n, ite(lt(sub_(idx, dom)), f, sub(init, idx)), idx)
        if u.op == "map" and u.a[0] is length(s) and not mentions(subst(u.a[1], {sub(s, mk("bv", u.a[2])): ZERO}), {s}):
            # item by item
            j = fresh_tmp()
            e = mk("slot", next_slot(), "seq" if init.op == "map" and is_seq(init.a[1]) else "any")
            f = subst(open_(u, j), {sub(s, j): e})
            if not mentions(f, ss):
                r = self.closed_one(f, e, sub(init, j), dom, idx, ss | {e})
                if r is not None:
                    return map_(length(init), r, j)
        if u.op == "setitem" and u.a[0] is s and not mentions(u.a[1], ss) and not mentions(u.a[2], ss):
            if u.a[1] is idx and init.op == "rep" and length(init) is dom:
                return map_(dom, u.a[2], idx)
            return mk("setmap", init, map_(dom, tuple_([u.a[1], u.a[2]]), idx))
        # boolean or / and accumulation
        if u.op == "ite" and is_bool(u):
            f1 = subst(u, {s: TRUE})
            f0 = subst(u, {s: FALSE})
            if f1 is TRUE and not mentions(f0, ss):
                return or_(init, any_map(dom, f0, idx))
            if f0 is FALSE and not mentions(f1, ss):
                return and_(init, not_(any_map(dom, not_(f1), idx)))
        if init in (TRUE, FALSE) and u.op == "ite":
            f1 = subst(u, {mk("truth", s): TRUE, s: TRUE})
            f0 = subst(u, {mk("truth", s): FALSE, s: FALSE})
            if is_bool(f0) and f1 is TRUE and not mentions(f0, ss):
                return or_(init, any_map(dom, f0, idx))
            if is_bool(f1) and f0 is FALSE and not mentions(f1, ss):
                return and_(init, not_(any_map(dom, not_(f1), idx)))
        # min / max accumulation
        if u.op == "call" and u.a[0].op == "glob" and u.a[0].a[0] in ("min2", "max2"):
            x, y = u.a[1]
            if y is s:
                x, y = y, x
            if x is s and not mentions(y, ss):
                pass
        return None

    def install(self, st, fin, keys, inits, st0):
        s = st.copy()
        for k in keys:
            v = fin[k]
            if k[0] == "env":
                old = st.env.get(k[1], UNDEF)
                s.env[k[1]] = v
                if v.op in ("list", "map", "fmap", "concat", "dict", "dictof", "obj", "call", "loop", "setmap", "ite"):
                    s.env[k[1]] = self.new(s, v)
            elif k[0] == "heap":
                s.heap[k[1]] = v
            else:
                s.attrs[k[1]] = v
        return s

    def assign_last(self, target, el, dom, st, fr):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                if n.id not in st.env or True:
                    pass
        try:
            self.assign(target, el(sub_(dom, ONE)), st, fr)
        except Exception:
            pass

    # ------------------------------------------------------------ expressions
    def cond(self, e, st, fr):
        return truth(self.val(st, self.ev(e, st, fr)))

    def ev(self, e, st, fr):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            self.note("unsupported expression %s" % type(e).__name__, e, fr)
            return unk(type(e).__name__)
        return f(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr)

    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        if name in self.spec_ns:
            return self.spec_ns[name]
        return self.global_(fr.module, name)

    def global_(self, m, name):
        q = self.prog.lookup(m, name)
        if q is None:
            if name in BUILTINS:
                c = canon_ext("builtins." + name)
                return glob(c)
            return unk("name:" + name)
        q = canon_ext(q)
        # module level constants
        mod, _, nm = q.rpartition(".")
        if mod in self.prog.modules and self.prog.modules[mod].ns.get(nm, (None,))[0] == "const":
            v = self.prog.modules[mod].ns[nm][1]
            t = self.eval_in(self.prog.modules[mod], v)
            if t is not None:
                return t
        return glob(q)

    def eval_in(self, m, expr):
        key = (m.name, id(expr))
        if key in self.consts:
            return self.consts[key]
        self.consts[key] = None
        fr = Frame(m, None, m.name, 0)
        st = St()
        try:
            t = self.val(st, self.ev(expr, st, fr))
        except RecursionError:
            raise
        if t.op == "unk":
            t = None
        self.consts[key] = t
        return t

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        r = self.getattr_(st, b, e.attr, fr)
        if r.op == "glob":
            q = r.a[0]
            mod, _, nm = q.rpartition(".")
            if mod in self.prog.modules and self.prog.modules[mod].ns.get(nm, (None,))[0] == "const":
                t = self.eval_in(self.prog.modules[mod], self.prog.modules[mod].ns[nm][1])
                if t is not None:
                    return t
            if q == "numpy.inf":
                return INF
            return r
        return r

    def e_List(self, e, st, fr):
        return self.new(st, self.display(e, st, fr, list_))

    def display(self, e, st, fr, cons):
        parts = []
        cur = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                if cur:
                    parts.append(cons(cur))
                    cur = []
                v = self.val(st, self.ev(x.value, st, fr))
                parts.append(aslist(v) if cons is list_ else v)
            else:
                cur.append(self.ev(x, st, fr))
        if not parts:
            return cons(cur)
        if cur:
            parts.append(cons(cur))
        return concat(tuple(parts))

    def e_Tuple(self, e, st, fr):
        return self.display(e, st, fr, tuple_)

    def e_Set(self, e, st, fr):
        return mk("set", tuple(self.val(st, self.ev(x, st, fr)) for x in e.elts))

    def e_Dict(self, e, st, fr):
        d = mk("dict", ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.val(st, self.ev(v, st, fr))
                if o.op == "dict":
                    for kk, vv in o.a[0]:
                        d = dset(d, kk, vv)
                elif d.op == "dict" and not d.a[0]:
                    d = call(glob("dict"), (o,))
                else:
                    d = mk("dupd", d, o)
            else:
                kt = self.val(st, self.ev(k, st, fr))
                d = dset(d, kt, self.ev(v, st, fr))
        return self.new(st, d)

    def e_JoinedStr(self, e, st, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.val(st, self.ev(v.value, st, fr))
                spec = "" if v.conversion in (-1, 115) else chr(v.conversion)
                if v.format_spec is not None:
                    y = self.val(st, self.ev(v.format_spec, st, fr))
                    if y.op != "const":
                        out.append(mk("pr", tuple_((x, y)), "format"))
                        continue
                    spec += plain_spec(y.a[1])
                out.append(mk("pr", x, spec))
            else:
                out.append(const(v.value))
        return fmt_(out)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        a = st.copy()
        b = st.copy()
        g = self.guard
        self.guard = g + [c]
        x = self.ev(e.body, a, fr)
        self.guard = g + [not_(c)]
        y = self.ev(e.orelse, b, fr)
        self.guard = g
        self.assign_state(st, self.merge(c, a, b))
        return ite(c, x, y)

    def assign_state(self, st, o):
        st.env, st.heap, st.attrs, st.events = o.env, o.heap, o.attrs, o.events

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        res = self.ev(e.values[0], st, fr)
        for x in e.values[1:]:
            c = truth(self.val(st, res))
            if (c is FALSE and isand) or (c is TRUE and not isand):
                return res
            if c is TRUE or c is FALSE:
                res = self.ev(x, st, fr)
                continue
            a = st.copy()
            g = self.guard
            self.guard = g + [c if isand else not_(c)]
            y = self.ev(x, a, fr)
            self.guard = g
            rv = self.val(st, res)
            if is_bool(rv):
                r2 = ite(c, y, FALSE) if isand else ite(c, TRUE, y)
            else:
                r2 = ite(c, y, res) if isand else ite(c, res, y)
            if isand:
                self.assign_state(st, self.merge(c, a, st.copy()))
            else:
                self.assign_state(st, self.merge(c, st.copy(), a))
            res = r2
        return res

    def e_UnaryOp(self, e, st, fr):
        v = self.val(st, self.ev(e.operand, st, fr))
        if isinstance(e.op, ast.Not):
            return not_(v)
        if isinstance(e.op, ast.USub):
            if v.op == "ite":
                return ite(v.a[0], neg(v.a[1]), neg(v.a[2]))
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_bool(v):
                return not_(v)
            return mk("call", glob("invert"), (v,), ())
        return unk("unary")

    def e_BinOp(self, e, st, fr):
        araw = self.ev(e.left, st, fr)
        braw = self.ev(e.right, st, fr)
        if isinstance(e.op, ast.Add):
            # list + list keeps its elements' identity
            ca = self.content(st, araw.a[0]) if araw.op == "ref" else araw
            cb = self.content(st, braw.a[0]) if braw.op == "ref" else braw
            if is_seq(ca) and is_seq(cb) and (self._refs(ca) or self._refs(cb)):
                return self.new(st, concat((ca, cb)))
        a = self.val(st, araw)
        b = self.val(st, braw)
        r = self.binop(e.op, a, b)
        if r.op in ("concat", "rep", "list"):
            return self.new(st, r)
        return r

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if is_seq(a) or is_seq(b):
                if a.op == "ite" :
                    return ite(a.a[0], self.binop(op, a.a[1], b), self.binop(op, a.a[2], b))
                if b.op == "ite":
                    return ite(b.a[0], self.binop(op, a, b.a[1]), self.binop(op, a, b.a[2]))
                return concat((a, b))
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub_(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple"):
                    if y.op == "num" and y.a[0].denominator == 1 and 0 <= y.a[0] * len(x.a[0]) <= 16:
                        return mk(x.op, x.a[0] * int(y.a[0]))
                    return mk("rep", x, y)
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            return pow_(a, b)
        if isinstance(op, ast.Mod):
            if a.op in ("fmt",) or (a.op == "const" and a.a[0] == "str"):
                return percent(a, b)
            return call(glob("mod"), (a, b))
        if isinstance(op, ast.FloorDiv):
            return call(glob("floordiv"), (a, b))
        if isinstance(op, ast.MatMult):
            return call(glob("dot"), (a, b))
        if isinstance(op, ast.BitAnd):
            if is_bool(a) or is_bool(b):
                return and_(a, b)
            return call(glob("bitand"), (a, b))
        if isinstance(op, ast.BitOr):
            if is_bool(a) or is_bool(b):
                return or_(a, b)
            return call(glob("bitor"), (a, b))
        return call(glob(type(op).__name__), (a, b))

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            c = self.compare(op, left, right, st)
            res = c if res is None else and_(res, c)
            left = right
        return res

    def compare(self, op, lraw, rraw, st):
        a, b = self.val(st, lraw), self.val(st, rraw)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if lraw.op == "ref" and lraw is rraw:
                r = TRUE
            else:
                r = is_(a, b)
            return not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = in_(a, b)
            return not_(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return not_(eq(a, b))
        if b.op == "const" and b.a[0] == "str" or a.op == "const" and a.a[0] == "str":
            # strings are totally ordered
            x, y = (a, b) if isinstance(op, (ast.Lt, ast.GtE)) else (b, a)
            c = mk("truth", mk("call", glob("str.lt"), (x, y), ()))
            return c if isinstance(op, (ast.Lt, ast.Gt)) else not_(c)
        if isinstance(op, ast.Lt):
            return cmp_lt(a, b)
        if isinstance(op, ast.Gt):
            return cmp_lt(b, a)
        if isinstance(op, ast.LtE):
            return cmp_le(a, b)
        if isinstance(op, ast.GtE):
            return cmp_le(b, a)
        return unk("cmp")

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.val(st, self.ev(e.slice, st, fr))
        if i.op == "const" and i.a[0] == "str" and self.items_are_fields(st, b):
            return self.getattr_(st, b, i.a[1], fr)
        if i.op in ("slice",) or i.op == "tuple":
            return self.new(st, sub(self.val(st, b), i))
        return self.subscr(b, i, st)

    def e_Slice(self, e, st, fr):
        def g(x):
            return NONE if x is None else self.val(st, self.ev(x, st, fr))
        return slice_(g(e.lower), g(e.upper), g(e.step))

    def e_Starred(self, e, st, fr):
        return unk("starred")

    def e_Lambda(self, e, st, fr):
        return self.closure(e, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def closure(self, node, st, fr):
        key = (id(node), len(self.closures))
        self.closures[key] = (node, dict(st.env), fr)
        # default values are evaluated now
        return mk("closure", key)

    def comp(self, gens, leaf, st, fr):
        """list value of a comprehension"""
        g = gens[0]
        it = self.ev(g.iter, st, fr)
        dom, el = self.domain(it, st)
        lim = 6
        if it.op == "call" and it.a[0].op == "glob" and it.a[0].a[0] in ("dictitems", "dictkeys", "dictvalues") \
                and it.a[1] and self.val(st, it.a[1][0]).op == "dict":
            lim = 24
        if dom.op == "num" and dom.a[0].denominator == 1 and 0 <= dom.a[0] <= lim:
            parts = []
            for i in range(int(dom.a[0])):
                s2 = st
                save = dict(st.env)
                self.assign(g.target, el(num(i)), s2, fr)
                c = TRUE
                for cnd in g.ifs:
                    c = and_(c, self.cond(cnd, s2, fr))
                v = list_([leaf(s2)]) if len(gens) == 1 else self.comp(gens[1:], leaf, s2, fr)
                st.env = save
                if c is TRUE:
                    parts.append(v)
                elif c is FALSE:
                    continue
                else:
                    parts.append(ite(c, v, list_([])))
            if not parts:
                return list_([])
            return concat(tuple(parts)) if len(parts) > 1 else parts[0]
        idx = fresh_tmp()
        self.loopidx.append(idx)
        s2 = st.copy()
        ev0 = st.events
        save_ex = self.exits
        self.exits = []
        self.assign(g.target, el(idx), s2, fr)
        c = TRUE
        for cnd in g.ifs:
            c = and_(c, self.cond(cnd, s2, fr))
        if len(gens) == 1:
            body = self.val(s2, leaf(s2))
            r = fmap_(dom, c, body, idx)
        else:
            inner = self.val(s2, self.comp(gens[1:], leaf, s2, fr))
            if c is not TRUE:
                inner = ite(c, inner, list_([]))
            r = mk("flat", map_(dom, inner, idx))
        ex = self.exits
        self.exits = save_ex
        for cc, e_, es in ex:
            self.exits.append((any_map(dom, and_(c, cc), idx), e_, es))
        if s2.events is not ev0 and s2.events != ev0:
            extra = s2.events[len(ev0):]
            self.event(st, mk("evloop", fmap_(dom, c, mk("evseq", extra), idx)))
        self.loopidx.pop()
        # heap effects of the element expression on older objects
        for k in st.heap:
            if k in s2.heap and s2.heap[k] is not st.heap[k]:
                st.heap[k] = unk("comp-effect")
        return r

    def e_ListComp(self, e, st, fr):
        save = st.env
        st.env = dict(st.env)
        r = self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), st, fr)
        st.env = save
        return self.new(st, r)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        save = st.env
        st.env = dict(st.env)
        r = self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), st, fr)
        st.env = save
        return call(glob("set"), (self.val(st, r),))

    def e_DictComp(self, e, st, fr):
        save = st.env
        st.env = dict(st.env)
        r = self.comp(e.generators, lambda s: tuple_([self.ev(e.key, s, fr), self.ev(e.value, s, fr)]), st, fr)
        st.env = save
        return self.new(st, call(glob("dict"), (self.val(st, r),)))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        self.callsites += 1
        # locals()
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            d = mk("dict", ())
            for n in sorted(st.env):
                v = st.env[n]
                if v is not UNDEF:
                    d = dset(d, const(n), v)
            return self.new(st, d)
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return mk("super", fr.cls.qual if fr.cls else "?", fr.selfname or "self")
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
        r = self.into(e, nm, st, fr)
        if r is not None:
            return r
        if nm in self.storing():
            # arrays handed to code that stores into its parameter are shared
            for x in e.args + [k.value for k in e.keywords]:
                if isinstance(x, ast.Name):
                    v = st.env.get(x.id)
                    if v is not None and v.op in ("poly", "call", "setitem", "sub", "dset") and not self._refs(v) \
                            and not is_bool(v) and not is_intlike(v):
                        st.env[x.id] = self.new(st, v)
        f = self.ev(e.func, st, fr) if not isinstance(e.func, ast.Attribute) else None
        if f is None:
            base = self.ev(e.func.value, st, fr)
            args, kws = self.args(e, st, fr)
            if self.own and nm in COPIERS:
                ext = base.op == "glob" or base.op == "ref" and self.content(st, base.a[0]).op == "glob"
                src = (args[0] if args else None) if ext else base if nm == "copy" and not args and not kws else None
                if src is not None:
                    v0 = self.val(st, src)
                    r = self.method(base, e.func.attr, args, kws, st, fr, e)
                    v = self.val(st, r)
                    if ext or v is v0:
                        return self.new(st, mk("fresh", const("deep" if nm == "deepcopy" else "shallow"), v))
                    return r
            if nm in LIST_MUT and isinstance(e.func.value, ast.Subscript) and not isinstance(e.func.value.slice, ast.Slice) \
                    and base.op not in ("ref", "glob", "super", "closure", "bound") and not self._refs(base):
                # a[i].append(x): the element is read, changed and stored
                cell = self.new(st, base)
                if self.is_container(self.val(st, cell), cell, st):
                    old = self.val(st, cell)
                    r = self.method(cell, nm, args, kws, st, fr, e)
                    new = self.val(st, cell)
                    if new is not old:
                        self.store_sub(e.func.value, new, st, fr)
                    return r
            r = self.method(base, e.func.attr, args, kws, st, fr, e)
            if nm in VIEWERS:
                ext = base.op == "glob" or base.op == "ref" and self.content(st, base.a[0]).op == "glob"
                self.view(r, (args[0] if args else None) if ext else base)
            return r
        args, kws = self.args(e, st, fr)
        if self.own and nm in COPIERS and args and not self._pkg(f):
            v = self.val(st, self.call(f, args, kws, st, fr, e))
            return self.new(st, mk("fresh", const("deep" if nm == "deepcopy" else "shallow"), v))
        r = self.call(f, args, kws, st, fr, e)
        if nm in VIEWERS and args:
            self.view(r, args[0])
        return r

    def into(self, e, nm, st, fr):
        """a numpy function that writes its result into an array given to it"""
        if nm is None:
            return None
        out = [k.value for k in e.keywords if k.arg == "out"]
        at = 1 if nm in UFUNC1 else 2 if nm in UFUNC2 else 3 if nm == "clip" else None
        if not out and (at is None or len(e.args) != at + 1 or any(isinstance(x, ast.Starred) for x in e.args)):
            return None
        if isinstance(e.func, ast.Name):
            g = self.ev(e.func, st, fr)
        elif isinstance(e.func.value, ast.Name):
            b = self.ev(e.func.value, st, fr)
            b = self.content(st, b.a[0]) if b.op == "ref" else b
            g = self.getattr_(st, b, nm, fr) if b.op == "glob" else b
            if b.op != "glob" and not out:
                return None
        else:
            return None
        if g.op == "glob" and g.a[0] in self.prog.funcs or g.op == "closure":
            return None
        if not out and not (g.op == "glob"):
            return None
        target = out[0] if out else e.args[at]
        c = copy.copy(e)
        c.keywords = [k for k in e.keywords if k.arg != "out"]
        if not out:
            c.args = e.args[:at]
        r = self.ev(c, st, fr)
        if isinstance(target, ast.Constant) and target.value is None:
            return r
        v = self.val(st, r)
        if isinstance(target, ast.Name):
            t = self.lookup(target.id, st, fr)
            if t.op == "ref":
                st.heap[t.a[0]] = v
                self.wrote(st, t.a[0])
                return t
            st.env[target.id] = v
        elif isinstance(target, ast.Attribute):
            self.setattr_(st, self.ev(target.value, st, fr), target.attr, v, fr)
        elif isinstance(target, ast.Subscript):
            self.store_sub(target, v, st, fr)
        else:
            t = self.ev(target, st, fr)
            if t.op == "ref":
                st.heap[t.a[0]] = v
                self.wrote(st, t.a[0])
        return r

    def view(self, r, src):
        """r may share its elements with src"""
        if src is not None and src.op == "ref" and r.op == "ref" and r.a[0][0] == "n" and r is not src:
            self.alias[r.a[0]] = src.a[0]

    def wrote(self, st, k):
        new = st.heap.get(k)
        while k in self.alias:
            k = self.alias[k]
            if k[0] in ("p", "a"):
                old = self.val(st, mk("ref", k))
                st.heap[k] = mk("after", "written through a view", old, (new,), ())

    def _pkg(self, f):
        return not (f.op == "glob" and f.a[0] not in self.prog.funcs and f.a[0] not in self.prog.classes)

    def storing(self):
        """names of functions that store into a subscript of a parameter"""
        r = getattr(self.prog, "_storing", None)
        if r is None:
            r = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.FunctionDef):
                        ps = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
                        for x in ast.walk(n):
                            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) \
                                    and isinstance(x.value, ast.Name) and x.value.id in ps:
                                r.add(n.name)
            self.prog._storing = r
        return r

    def args(self, e, st, fr):
        args = []
        kws = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.val(st, self.ev(a.value, st, fr))
                if v.op in ("list", "tuple"):
                    args.extend(v.a[0])
                elif v.op == "ite" and v.a[1].op in ("list", "tuple") and v.a[2].op in ("list", "tuple") \
                        and len(v.a[1].a[0]) == len(v.a[2].a[0]):
                    args.extend(ite(v.a[0], x, y) for x, y in zip(v.a[1].a[0], v.a[2].a[0]))
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                rv = self.val(st, v)
                self.splat(rv, kws)
            else:
                kws.append((k.arg, v))
        return args, kws

    def splat(self, rv, kws):
        if rv.op == "dict" and all(kk.op == "const" for kk, _ in rv.a[0]):
            kws.extend((kk.a[1], vv) for kk, vv in rv.a[0])
        elif rv.op == "dset" and rv.a[1].op == "const" and rv.a[1].a[0] == "str":
            self.splat(rv.a[0], kws)
            kws[:] = [kv for kv in kws if kv[0] != rv.a[1].a[1]]
            kws.append((rv.a[1].a[1], rv.a[2]))
        elif rv.op == "call" and rv.a[0] is glob("dict") and len(rv.a[1]) == 1 and not rv.a[2]:
            self.splat(rv.a[1][0], kws)
        else:
            kws.append(("**", rv))

    def opq(self, v, st, fr):
        """value passed to an opaque call: snapshot, closures become lambda terms"""
        t = self.val(st, v)
        return self.delam(t, st, fr)

    def delam(self, t, st, fr):
        cl = closures_in(t)
        if not cl:
            return t
        return subst(t, {c: self.lam_of(c, st, fr) for c in cl})

    def lam_of(self, c, st, fr):
        node, env, dfr = self.closures[c.a[0]]
        if len(self.stack) > MAX_DEPTH or c in self.stack:
            return unk("closure")
        params = [a.arg for a in node.args.args]
        tmps = [fresh_tmp2() for _ in params]
        s2 = st.copy()
        self.stack.append(c)
        ex = self.exits
        self.exits = []
        v = self.call_closure(c, list(tmps), [], s2, dfr)
        v = self.val(s2, v)
        self.exits = ex
        self.stack.pop()
        v = self.delam(v, s2, dfr)
        return lam_(tmps, v)

    def call_closure(self, c, args, kws, st, fr):
        node, env, dfr = self.closures[c.a[0]]
        f = Func("closure", node, dfr.module, dfr.cls) if not isinstance(node, ast.Lambda) else None
        fr2 = Frame(dfr.module, dfr.cls, dfr.qual + ".<closure>", fr.depth + 1, dfr.selfcls)
        fr2.selfname = dfr.selfname
        sub_env = dict(env)
        # names of the defining frame still live see their current value
        for n in env:
            if n in st.env and fr.qual == dfr.qual:
                sub_env[n] = st.env[n]
        b = self.bind(node.args, args, kws, st, dfr, sub_env)
        if b is None:
            return unk("bind")
        sub_env.update(b)
        return self.run(node, sub_env, st, fr2)

    def bind(self, a, args, kws, st, fr, env=None):
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwd = dict(kws)
        star = kwd.pop("**", None)
        if any(x.op == "star" for x in args):
            return None
        for n, v in zip(names, args):
            out[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                return None
            out[a.vararg.arg] = tuple_(args[len(names):])
        elif a.vararg is not None:
            out[a.vararg.arg] = tuple_([])
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kwd:
                out[n] = kwd.pop(n)
        for n in list(kwd):
            if n in names:
                return None
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if star is not None:
                    dv = NONE
                    out[n] = call(glob("dictget"), (star, const(n), self.default(defaults[n], st, fr) if n in defaults else UNDEF))
                elif n in defaults:
                    out[n] = self.default(defaults[n], st, fr)
                else:
                    out[n] = UNDEF
        if a.kwarg is not None:
            d = mk("dict", ())
            if star is not None:
                d = call(glob("dict"), (star,))
            for n, v in kwd.items():
                d = dset(d, const(n), v)
            out[a.kwarg.arg] = self.new(st, d)
        elif kwd:
            return None
        return out

    def default(self, node, st, fr):
        fr0 = Frame(fr.module, fr.cls, fr.qual, 0)
        s = St()
        v = self.ev(node, s, fr0)
        return self.val(s, v)

    def run(self, node, env, st, fr):
        """execute a function body in st's heap; returns value, updates st"""
        if isinstance(node, ast.Lambda):
            save = st.env
            st.env = env
            v = self.ev(node.body, st, fr)
            st.env = save
            return v
        outer = st.env
        s2 = st.copy()
        s2.env = env
        o = self.block(node.body, s2, fr)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            return unk("generator")
        r = self.collapse(o)
        for c, e, es in r[2]:
            es = es.copy()
            es.env = outer
            g = TRUE
            for x in self.guard:
                g = and_(g, x)
            self.exits.append((and_(g, c), e, es))
        if r[1] is None:
            return unk("noreturn")
        s3 = r[1]
        s3.env = outer
        self.assign_state(st, s3)
        return r[0]

    def collapse(self, o):
        """(value, state, [(cond, exc, state)])"""
        if o[0] == "ret":
            return o[1], o[2].copy(), []
        if o[0] == "fall":
            return NONE, o[1].copy(), []
        if o[0] == "raise":
            return None, None, [(TRUE, o[1], o[2])]
        if o[0] == "if":
            a = self.collapse(o[2])
            b = self.collapse(o[3])
            ex = [(and_(o[1], c), e, s) for c, e, s in a[2]] + [(and_(not_(o[1]), c), e, s) for c, e, s in b[2]]
            if a[1] is None:
                return b[0], b[1], ex
            if b[1] is None:
                return a[0], a[1], ex
            return ite(o[1], a[0], b[0]), self.merge(o[1], a[1], b[1]), ex
        return unk("brk"), o[-1].copy(), []

    def should_inline(self, f):
        if f.qual in self.opaque:
            return False
        if f.qual in self.inline:
            return True
        if f.qual in PUBLIC_OPAQUE:
            return False
        return True

    def call_func(self, f, args, kws, st, fr, selfcls=None, force=False):
        if fr.depth > MAX_DEPTH or f.qual in [x for x in self.stack if isinstance(x, str)]:
            return unk("recursion:" + f.qual)
        b = self.bind(f.node.args, args, kws, st, Frame(f.module, f.cls, f.qual, 0))
        if b is None:
            return unk("bind:" + f.qual)
        self.analysed.add(f.qual)
        fr2 = Frame(f.module, f.cls, f.qual, fr.depth + 1, selfcls or f.cls)
        if f.cls is not None and f.node.args.args:
            fr2.selfname = f.node.args.args[0].arg
        self.stack.append(f.qual)
        # self of an inlined method keeps its class
        v = self.run(f.node, b, st, fr2)
        self.stack.pop()
        return v

    def call(self, f, args, kws, st, fr, node):
        if f.op == "ref":
            c = self.content(st, f.a[0])
            if c.op in ("glob", "closure", "lam"):
                f = c
            elif f.a[0][0] == "a" and len(f.a[0]) == 4 and c.op == "attr" and self.content(st, f.a[0][1]).id == f.a[0][3] \
                    and (f.a[0][1], f.a[0][2]) not in st.attrs:
                # a method taken from an object before it is called
                return self.method(mk("ref", f.a[0][1]), f.a[0][2], args, kws, st, fr, node)
            else:
                return self.opaque_call(self.val(st, f), args, kws, st, fr, recv=f)
        if f.op == "closure":
            if f in self.stack or fr.depth > MAX_DEPTH:
                return unk("recursion")
            self.stack.append(f)
            v = self.call_closure(f, args, kws, st, fr)
            self.stack.pop()
            return v
        if f.op == "bound":
            m = self.prog.funcs.get(f.a[1])
            if m is not None:
                return self.bound_call(f.a[0], m, f.a[2], args, kws, st, fr)
        if f.op == "ite":
            # calling one of two functions
            c = f.a[0]
            a, b = st.copy(), st.copy()
            x = self.call(f.a[1], args, kws, a, fr, node)
            y = self.call(f.a[2], args, kws, b, fr, node)
            self.assign_state(st, self.merge(c, a, b))
            return ite(c, x, y)
        if f.op == "superattr":
            return self.super_call(f.a[0], f.a[1], args, kws, st, fr)
        if f.op == "glob":
            q = f.a[0]
            fn = self.prog.funcs.get(q)
            if fn is not None and fn.cls is None:
                if self.should_inline(fn):
                    return self.call_func(fn, args, kws, st, fr)
                return self.opaque_internal(fn, None, args, kws, st, fr)
            if fn is not None:
                # Class.method(obj, ...)
                if args and "staticmethod" not in fn.decorators() and "classmethod" not in fn.decorators():
                    return self.bound_call(args[0], fn, fn.cls.qual, args[1:], kws, st, fr)
                if "staticmethod" in fn.decorators() and self.should_inline(fn):
                    return self.call_func(fn, args, kws, st, fr)
            cl = self.prog.classes.get(q)
            if cl is not None:
                return self.construct(cl, args, kws, st, fr)
        return self.opaque_call(f, args, kws, st, fr)

    def construct(self, cl, args, kws, st, fr):
        init = self.prog.find_method(cl, "__init__")
        a = [self.opq(x, st, fr) for x in args]
        k = [(n, self.opq(v, st, fr)) for n, v in kws]
        if init is not None:
            b = self.bind(init.node.args, [sym("self")] + a, k, st, Frame(init.module, init.cls, init.qual, 0))
            if b is not None and all(v is not UNDEF for v in b.values()) and init.node.args.vararg is None:
                kk = [(n, self.val(st, v)) for n, v in b.items() if n != init.node.args.args[0].arg]
                return self.new(st, call(glob(cl.qual), (), kk))
        return self.new(st, call(glob(cl.qual), a, k))

    def bound_call(self, base, m, selfq, args, kws, st, fr):
        decs = m.decorators()
        if "staticmethod" in decs:
            full = args
        elif "classmethod" in decs:
            full = [glob(selfq)] + args
        else:
            full = [base] + args
        if self.should_inline(m):
            return self.call_func(m, full, kws, st, fr, self.prog.classes.get(selfq))
        return self.opaque_internal(m, base, args, kws, st, fr)

    def super_call(self, sup, name, args, kws, st, fr):
        cq = sup.a[0]
        c = self.prog.classes.get(cq)
        selfref = st.env.get(fr.selfname or "self", sym("self"))
        if c is not None:
            for b in c.bases:
                bc = self.prog.classes.get(b)
                if bc is not None:
                    m = self.prog.find_method(bc, name)
                    if m is not None:
                        return self.call_func(m, [selfref] + args, kws, st, fr, fr.selfcls)
            ext = [b for b in c.bases if b not in self.prog.classes]
            base = glob(ext[0] if ext else "object")
        else:
            base = glob("object")
        if name == "__init__" and (base.a[0] == "object" or (not args and not kws)):
            return NONE
        a = tuple(self.opq(x, st, fr) for x in args)
        k = tuple((n, self.opq(v, st, fr)) for n, v in kws)
        sv = self.val(st, selfref)
        t = call(mk("supermeth", base, name), (sv,) + a, k)
        if name in PURE_METHODS:
            return self.new(st, t)
        self.event(st, mk("ev", t))
        self.mutate(st, selfref, lambda o: after_(name, o, a, k), fr)
        return selfref if name in RETURNS_SELF else mk("res", t, ZERO, ())

    def opaque_internal(self, f, base, args, kws, st, fr):
        """call of a public package function that is kept as one node"""
        a = [self.opq(x, st, fr) for x in args]
        k = [(n, self.opq(v, st, fr)) for n, v in kws]
        b = self.bind(f.node.args, ([sym("self")] if base is not None else []) + a, k, st,
                      Frame(f.module, f.cls, f.qual, 0))
        if b is not None and not any(v is UNDEF for v in b.values()):
            names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            skip = names[0] if base is not None and names else None
            kk = []
            for n, v in b.items():
                if n == skip:
                    continue
                if f.node.args.kwarg is not None and n == f.node.args.kwarg.arg:
                    self.splat(self.val(st, v), kk)
                else:
                    kk.append((n, self.val(st, v)))
            a, k = [], kk
        if base is not None:
            return self.opaque_method(base, f.name, a, k, st, fr, raw_done=True)
        t = call(glob(f.qual), a, k)
        if f.qual in PURE_INTERNAL:
            return self.new(st, t)
        return self.impure(t, st)

    def methsig(self, name):
        """the leading parameters all classes of the package agree on for a method"""
        m = getattr(self.prog, "_methsig", None)
        if m is None:
            m = self.prog._methsig = {}
            for mod in self.prog.modules.values():
                for c in ast.walk(mod.tree):
                    if not isinstance(c, ast.ClassDef):
                        continue
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self":
                            n = [x.arg for x in f.args.args[1:]]
                            if f.name in m:
                                o = m[f.name]
                                n = [x for i, x in enumerate(n) if o[:i + 1] == n[:i + 1]]
                            m[f.name] = n
        return m.get(name, ())

    def impure(self, t, st):
        n = self.occ(st, t)
        self.event(st, mk("ev", t))
        return mk("res", t, num(n), tuple(self.loopidx))

    def opaque_call(self, f, args, kws, st, fr, recv=None):
        f = self.delam(f, st, fr)
        if f.op == "glob" and f.a[0] == "functools.reduce" and len(args) == 3 and not kws:
            r = self.reduce(args, st, fr)
            if r is not None:
                return r
        if f.op == "glob" and f.a[0] in ("zip", "enumerate", "map", "filter", "functools.reduce"):
            return self.lazy_builtin(f.a[0], args, kws, st, fr)
        if f.op == "glob" and f.a[0] in ("copy.deepcopy", "copy", "list") and len(args) == 1 and not kws and args[0].op == "ref":
            c = self.content(st, args[0].a[0])
            if f.a[0] == "copy" or c.op in ("list", "map", "concat", "fmap"):
                return self.new(st, self.val(st, args[0]) if f.a[0] == "copy" else aslist(c))
        a = tuple(self.opq(x, st, fr) for x in args)
        k = tuple((n, self.opq(v, st, fr)) for n, v in kws)
        if a and f is sym("self") and fr.selfcls is not None and not any(x.op == "star" for x in a):
            # a class method making an object of its class
            m = self.prog.find_method(fr.selfcls, "__init__")
            if m is not None and len(a) < len(m.node.args.args) and not m.node.args.posonlyargs:
                k = tuple((p.arg, x) for p, x in zip(m.node.args.args[1:], a)) + k
                a = ()
        if f.op == "glob" and f.a[0] == "dict" and len(a) == 1 and a[0].op == "call" and a[0].a[0] is glob("zip"):
            d, e = self.domain(a[0], st)
            tmp = fresh_tmp()
            a = (map_(d, self.val(st, e(tmp)), tmp),)
        if f.op == "glob":
            q = f.a[0]
            if q.startswith(IGNORED_CALLS):
                return NONE
            if q in ("warnings.catch_warnings", "inspect.signature"):
                return call(f, a, k)
            if q == "print":
                if all(x.op != "star" for x in a) and not k:
                    out = []
                    for i, x in enumerate(a):
                        out += ([const(" ")] if i else []) + [mk("pr", x, "")]
                    a = (fmt_(out),)
                self.event(st, mk("ev", call(f, a, k)))
                return NONE
            if q == "type" and len(args) == 1 and not k and args[0].op == "ref" and fr.selfname and args[0] is st.env.get(fr.selfname):
                c = self.cell_class(args[0].a[0], fr) or fr.selfcls
                if c is not None and not self.prog.subclassed(c):
                    return glob(c.qual)
            if q == "iter" and len(a) == 1:
                return args[0]
            if q == "next" and len(a) == 1:
                x = a[0]
                if x.op == "call" and x.a[0].op == "glob" and len(x.a[1]) == 1 and not x.a[2]:
                    x0, f0 = x.a[1][0], x.a[0].a[0]
                    if f0 == "dictkeys":
                        return elem(x0, ZERO)
                    if f0 == "dictvalues" and x0.op != "dict":
                        return sub(x0, elem(x0, ZERO))
                    if f0 == "dictitems" and x0.op != "dict":
                        return tuple_([elem(x0, ZERO), sub(x0, elem(x0, ZERO))])
                return sub(x, ZERO)
            if q == "setattr" and len(args) == 3:
                nm = self.val(st, args[1])
                if nm.op == "const":
                    self.setattr_(st, args[0], nm.a[1], args[2], fr)
                else:
                    sv = self.val(st, args[2])
                    self.mutate(st, args[0], lambda o: mk("after", "setattr", o, (nm, sv), ()), fr)
                return NONE
            if q == "getattr" and len(args) == 2:
                nm = self.val(st, args[1])
                if nm.op == "const" and nm.a[0] == "str":
                    return self.getattr_(st, args[0], nm.a[1], fr)
            if q == "getattr" and len(args) == 3:
                nm = self.val(st, args[1])
                if nm.op == "const" and nm.a[0] == "str":
                    base = self.val(st, args[0])
                    h = call(glob("hasattr"), (base, nm))
                    return ite(h, self.getattr_(st, args[0], nm.a[1], fr), args[2])
            if q == "scipy.optimize.OptimizeResult" and k and not a and all(n != "**" for n, v in k):
                r = self.new(st, call(f, (), ()))
                for n, v in kws:
                    self.setattr_(st, r, n, v, fr)
                return r
            t = call(f, a, k)
            if t.op == "call" and t.a[0].op == "glob" and (t.a[0].a[0].startswith("numpy.random") or t.a[0].a[0].startswith("random.")):
                return self.impure(t, st)
            if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("time.time", "open", "input"):
                return self.impure(t, st)
            if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0].split(".")[0] in ("joblib",) and t.a[0].a[0].split(".")[-1] in ("dump", "load"):
                return self.impure(t, st)
            if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in SCALAR_FNS:
                return t
            if isconst(t) or is_bool(t) or t.op in ("poly", "lt"):
                return t
            if q in ("asarray",) and len(args) == 1 and not k and args[0].op == "ref":
                # np.asarray may return the very same object
                pass
            return self.new(st, t)
        if f.op == "lam":
            return call(f, a, k)
        # unknown callable: a user supplied function, callback, ...
        if f.op == "call" and f.a[0].op == "glob" and f.a[0].a[0] in ("joblib.Parallel", "joblib.delayed"):
            return self.new(st, call(f, a, k))
        t = call(f, a, k)
        if t.op != "call":
            return t
        return self.impure(t, st)

    def lazy_builtin(self, name, args, kws, st, fr):
        if name == "map" and len(args) >= 2:
            doms = [self.domain(x, st) for x in args[1:]]
            n = doms[0][0]
            for d, _ in doms[1:]:
                if d is not n:
                    n = call(glob("min2"), (n, d))
            return self.lazymap(args[0], n, [e for d, e in doms], st, fr)
        if name == "filter" and len(args) == 2:
            d, e = self.domain(args[1], st)
            idx = fresh_tmp()
            s2 = st.copy()
            x = e(idx)
            if args[0] is NONE:
                c = truth(self.val(s2, x))
            else:
                c = truth(self.val(s2, self.call(args[0], [x], [], s2, fr, None)))
            return self.new(st, fmap_(d, c, self.val(s2, x), idx))
        a = tuple(self.val(st, x) if not (x.op == "ref" and self._refs(self.content(st, x.a[0])) and False) else x for x in args)
        return mk("call", glob(name), a, tuple(sorted((n, self.val(st, v)) for n, v in kws)))

    def lazymap(self, f, dom, els, st, fr):
        if dom.op == "num" and 0 <= dom.a[0] <= 6:
            return self.new(st, list_([self.val(st, self.call(f, [e(num(i)) for e in els], [], st, fr, None)) for i in range(int(dom.a[0]))]))
        idx = fresh_tmp()
        self.loopidx.append(idx)
        s2 = st.copy()
        v = self.val(s2, self.call(f, [e(idx) for e in els], [], s2, fr, None))
        self.loopidx.pop()
        if s2.events != st.events:
            extra = s2.events[len(st.events):]
            self.event(st, mk("evloop", map_(dom, mk("evseq", extra), idx)))
        return self.new(st, map_(dom, v, idx))

    # ---------------------------------------------------------------- methods
    def method(self, base, name, args, kws, st, fr, node):
        if base.op == "super":
            return self.super_call(base, name, args, kws, st, fr)
        if base.op == "glob":
            f = self.getattr_(st, base, name, fr)
            return self.call(f, args, kws, st, fr, node)
        if base.op == "ite" and self._refs(base) and base.a[1].op in ("ref", "ite", "closure") and base.a[2].op in ("ref", "ite", "closure") and name not in PURE_METHODS and False:
            pass
        if base.op == "ref":
            k = base.a[0]
            if (k, name) in st.attrs:
                return self.call(st.attrs[(k, name)], args, kws, st, fr, node)
            content = self.content(st, k)
            if content.op == "glob":
                return self.method(content, name, args, kws, st, fr, node)
            sc = self.cell_class(k, fr)
            if sc is not None:
                m = self.prog.find_method(sc, name)
                if m is not None and "property" not in m.decorators():
                    return self.bound_call(base, m, sc.qual, args, kws, st, fr)
            # instance of a private/new package class
        return self.opaque_method(base, name, args, kws, st, fr)

    def opaque_method(self, base, name, args, kws, st, fr, raw_done=False):
        bv = self.val(st, base)
        if bv.op in ("ite",) and name in LIST_MUT and False:
            pass
        if name in LIST_MUT and (self.is_container(bv, base, st) or name == "update" and self.items_are_fields(st, base)):
            r = self.container_mut(base, bv, name, args, kws, st, fr)
            if r is not None:
                return r
        if name == "items" and not args:
            return mk("call", glob("dictitems"), (bv,), ())
        if name == "keys" and not args:
            return mk("call", glob("dictkeys"), (bv,), ())
        if name == "values" and not args:
            return mk("call", glob("dictvalues"), (bv,), ())
        a = tuple(self.opq(x, st, fr) for x in args)
        k = tuple((n, self.opq(v, st, fr)) for n, v in kws)
        if k and not raw_done and not any(x.op == "star" for x in a):
            d = dict(k)
            for n in self.methsig(name)[len(a):]:
                if n not in d:
                    break
                a += (d.pop(n),)
            k = tuple((n, v) for n, v in k if n in d)
        if name == "get" and 1 <= len(a) <= 2:
            d = a[1] if len(a) == 2 else NONE
            kk = a[0]
            if bv.op == "dict" and isconst(kk):
                for x, v in bv.a[0]:
                    if x is kk:
                        return v
                return d
            if bv.op == "ite":
                return dget(bv, kk, d)
            return dget(bv, kk, d)
        if name == "__getitem__" and len(a) == 1 and not k:
            return self.new(st, sub(bv, a[0]))
        if name == "__contains__" and len(a) == 1 and not k:
            return in_(a[0], bv)
        if name in METHOD_FN and not raw_done:
            fn = METHOD_FN[name]
            t = call(glob(fn), (bv,) + a, k)
            if fn in SCALAR_FNS:
                return t
            return self.new(st, t)
        if name == "tolist":
            return self.new(st, call(mk("meth", bv, name), a, k))
        if name == "format":
            return braces(bv, a, k)
        if name == "join" and len(a) == 1:
            if bv.op == "const" and a[0].op in ("list", "tuple") and not any(x.op == "star" for x in a[0].a[0]):
                out = []
                for i, x in enumerate(a[0].a[0]):
                    out += ([bv] if i else []) + [mk("pr", x, "")]
                return fmt_(out)
            return mk("fmt", (call(glob("str.join"), (bv,) + a),))
        if name in ("endswith", "startswith") and bv.op == "const" and a and a[0].op == "const":
            return const(getattr(bv.a[1], name)(a[0].a[1]))
        if name in ("endswith", "startswith"):
            return call(glob("str." + name), (bv,) + a, k)
        if name in ("upper", "lower") and bv.op == "const":
            return const(getattr(bv.a[1], name)())
        if bv.op == "ite" and name in ("astype", "tolist"):
            return self.new(st, lift1(bv, lambda x: call(mk("meth", x, name), a, k)))
        t = call(mk("meth", bv, name), a, k)
        if name in PURE_METHODS and not (raw_done and name == "copy"):
            if name in ("endswith", "startswith", "distance", "index", "count", "upper", "lower"):
                return t
            return self.new(st, t)
        if name in RNG_METHODS:
            r = self.impure(t, st)
            return self.new(st, r)
        if name in ARG_MUT and args:
            self.event(st, mk("ev", t))
            self.mutate(st, args[0], lambda o: mk("after", name, o, (bv,), ()), fr)
            return NONE
        if not raw_done and name in self.datafields():
            # what is called is a value kept in the object
            return self.opaque_call(self.val(st, self.getattr_(st, base, name, fr)), args, kws, st, fr)
        n = self.occ(st, t)
        self.event(st, mk("ev", t))
        if not (raw_done and name == "copy"):
            self.mutate(st, base, lambda o: after_(name, o, a, k), fr)
        if name in RETURNS_SELF:
            return base
        return self.new(st, mk("res", t, num(n), tuple(self.loopidx)))

    def datafields(self):
        """attributes that hold data (they are assigned, or looked into) and are no method of the package"""
        r = getattr(self.prog, "_datafields", None)
        if r is None:
            r = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        if isinstance(n.ctx, ast.Store):
                            r.add(n.attr)
                        if isinstance(n.value, ast.Attribute):
                            r.add(n.value.attr)
            r -= {q.rsplit(".", 1)[-1] for q in self.prog.funcs}
            self.prog._datafields = r
        return r

    def is_container(self, bv, base, st):
        if bv.op in ("list", "dict", "map", "fmap", "concat", "dset", "set", "ite", "rep", "dictof", "dupd", "loop", "slot", "ddel"):
            return True
        if bv.op == "call" and bv.a[0].op == "glob" and bv.a[0].a[0] in ("list", "dict", "set", "sorted"):
            return True
        if base.op == "ref" and (base.a[0][0] in ("a", "p")):
            return True
        if base.op == "ref" and bv.op in ("sub", "attr", "sym", "res"):
            return True
        return False

    def container_mut(self, base, bv, name, args, kws, st, fr):
        ref = base
        if base.op != "ref" and not (base.op == "ite" and self._refs(base)):
            return None

        def raw(o_unused):
            return None
        if name in ("append", "extend", "insert", "add", "clear", "reverse", "sort", "pop", "remove", "update", "setdefault", "popitem", "discard"):
            if name == "append" and len(args) == 1:
                x = args[0]
                self.rawmut(st, base, lambda o: concat((o, list_([x]))))
                return NONE
            if name == "extend" and len(args) == 1:
                x = args[0]
                c = self.content(st, x.a[0]) if x.op == "ref" else x
                if not self._refs(c):
                    c = self.val(st, x)
                c = aslist(c)
                self.rawmut(st, base, lambda o: concat((o, c)))
                return NONE
            if name == "update" and self.items_are_fields(st, base):
                more = []
                for x in args:
                    self.splat(self.val(st, x), more)
                if all(n != "**" for n, v in more + list(kws)):
                    for n, v in more + list(kws):
                        self.setattr_(st, base, n, v, fr)
                    return NONE
            a = tuple(self.val(st, x) for x in args)
            k = tuple((n, self.val(st, v)) for n, v in kws)
            if name == "pop":
                full = self.val(st, base)
                isd = full.op in ("dict", "dset", "dictof")
                if isd or (a and a[0].op == "const"):
                    r = sub(full, a[0]) if len(a) == 1 else dget(full, a[0], a[1])
                    self.mutate(st, base, lambda o: ddel(o, a[0]), fr)
                    return r
                i = a[0] if a else num(-1)
                r = sub(full, i)
                self.mutate(st, base, lambda o: lpop(o, i), fr)
                return r
            if name == "update":
                full = self.val(st, base)

                def upd(o):
                    if a:
                        if a[0].op == "dict":
                            for kk, vv in a[0].a[0]:
                                o = dset(o, kk, vv)
                        else:
                            o = mk("dupd", o, a[0])
                    for n, v in k:
                        if n == "**":
                            o = mk("dupd", o, v)
                        else:
                            o = dset(o, const(n), v)
                    return o
                self.mutate(st, base, upd, fr)
                return NONE
            if name == "clear":
                self.mutate(st, base, lambda o: mk("dict", ()) if o.op in ("dict", "dset", "dictof") or o.op == "attr" and o.a[1] in self.prog.dictattrs else list_([]), fr)
                return NONE
            if name == "setdefault" and a:
                full = self.val(st, base)
                d = a[1] if len(a) > 1 else NONE
                r = dget(full, a[0], d)
                self.mutate(st, base, lambda o: dset(o, a[0], r), fr)
                return r
            if name == "reverse":
                self.mutate(st, base, lambda o: sub(o, slice_(NONE, NONE, num(-1))), fr)
                return NONE
            if name == "sort":
                self.mutate(st, base, lambda o: call(glob("sorted"), (o,), k), fr)
                return NONE
            if name == "add" and len(a) == 1:
                self.mutate(st, base, lambda o: mk("set", o.a[0] + (a[0],)) if o.op == "set" else after_(name, o, a, k), fr)
                return NONE
            if name == "insert" and len(a) == 2 and a[0] is ZERO:
                self.mutate(st, base, lambda o: concat((list_([a[1]]), aslist(o))), fr)
                return NONE
            self.mutate(st, base, lambda o: after_(name, o, a, k), fr)
            return NONE
        return None

    def rawmut(self, st, base, fn):
        """like mutate but keeps references inside the content"""
        if base.op == "ref":
            k = base.a[0]
            st.heap[k] = fn(self.content(st, k))
        elif base.op == "ite":
            c = base.a[0]
            self.rawmut(st, base.a[1], lambda o: ite(c, fn(o), o))
            self.rawmut(st, base.a[2], lambda o: ite(c, o, fn(o)))


# --------------------------------------------------------------------- helpers
def after_(name, o, a, k):
    return mk("after", name, o, a, tuple(sorted(k, key=lambda kv: kv[0] or "")))


def next_slot(_c=[0]):
    _c[0] += 1
    return _c[0]


def root(k):
    while k[0] == "a":
        k = k[1]
    return k


def closures_in(t, memo={}):
    r = memo.get(t)
    if r is None:
        if t.op == "closure":
            r = (t,)
        else:
            out = []
            for k in kids(t):
                for c in closures_in(k, memo):
                    if c not in out:
                        out.append(c)
            r = tuple(out)
        memo[t] = r
    return r


def lift1(t, f):
    if t.op == "ite":
        return ite(t.a[0], lift1(t.a[1], f), lift1(t.a[2], f))
    return f(t)


def setitem(o, k, v):
    if o.op == "ite":
        return ite(o.a[0], setitem(o.a[1], k, v), setitem(o.a[2], k, v))
    if o.op in ("dict", "dset", "dictof", "ddel") or (isconst(k) and k.op == "const" and k.a[0] == "str"):
        return dset(o, k, v)
    if o.op == "call" and o.a[0].op == "glob" and o.a[0].a[0] == "dict":
        return dset(o, k, v)
    if o.op == "slot" and o.a[1] == "dict":
        return dset(o, k, v)
    if o.op == "list" and k.op == "num" and k.a[0].denominator == 1 and -len(o.a[0]) <= k.a[0] < len(o.a[0]):
        l = list(o.a[0])
        l[int(k.a[0])] = v
        return list_(l)
    k = posindex(o, k)
    if o.op == "setitem" and o.a[1] is k:
        return setitem(o.a[0], k, v)
    if k.op in ("lt", "ite") and is_bool(k):
        r = clamp(o, k, v)
        if r is not None:
            return r
    return mk("setitem", o, k, v)


REBUILD["setitem"] = setitem


def delitem(o, k):
    if o.op == "ite":
        return ite(o.a[0], delitem(o.a[1], k), delitem(o.a[2], k))
    if k.op == "num" and o.op not in ("dict", "dset", "dictof", "ddel", "dupd"):
        return lpop(o, k)
    return ddel(o, k)


def dget(d, k, default):
    if d.op == "ite":
        return ite(d.a[0], dget(d.a[1], k, default), dget(d.a[2], k, default))
    if d.op == "dict" and isconst(k):
        for x, v in d.a[0]:
            if x is k:
                return v
        return default
    if d.op == "dset":
        e = eq(d.a[1], k)
        return ite(e, d.a[2], dget(d.a[0], k, default))
    return ite(in_(k, d), sub(d, k), default)


def lpop(o, i):
    if o.op == "ite":
        return ite(o.a[0], lpop(o.a[1], i), lpop(o.a[2], i))
    if i is ZERO:
        return sub(o, slice_(ONE, NONE, NONE))
    if i is num(-1):
        if o.op == "concat" and o.a[0][-1].op == "list" and o.a[0][-1].a[0]:
            last = o.a[0][-1]
            return concat(o.a[0][:-1] + (list_(last.a[0][:-1]),))
        return sub(o, slice_(NONE, num(-1), NONE))
    return mk("after", "pop", o, (i,), ())


def lindiff(u, s):
    """u - s when u = s + e with e free of s (through conditionals), else None"""
    if u is s:
        return ZERO
    if u.op == "ite":
        if mentions(u.a[0], {s}):
            return None
        a, b = lindiff(u.a[1], s), lindiff(u.a[2], s)
        if a is None or b is None:
            return None
        return ite(u.a[0], a, b)
    p = to_poly(u)
    if p.get(((s, F(1)),)) != 1:
        return None
    e = sub_(u, s)
    if mentions(e, {s}):
        return None
    return e


def append_parts(u, s):
    """u = s ++ parts : list of (cond, parts tuple)"""
    if u is s:
        return [(TRUE, ())]
    if u.op == "concat" and u.a[0][0] is s:
        ps = u.a[0][1:]
        if any(mentions(p, {s}) for p in ps):
            return None
        return [(TRUE, ps)]
    if u.op == "ite":
        if mentions(u.a[0], {s}):
            return None
        a, b = append_parts(u.a[1], s), append_parts(u.a[2], s)
        if a is None or b is None:
            return None
        return [(and_(u.a[0], c), p) for c, p in a] + [(and_(not_(u.a[0]), c), p) for c, p in b]
    return None


def append_closed(init, parts, dom, idx):
    def asl(ps):
        return concat(ps) if len(ps) > 1 else (ps[0] if ps else list_([]))
    lits = [(c, asl(p)) for c, p in parts]
    live = [(c, p) for c, p in lits if not (p.op == "list" and not p.a[0])]
    if not live:
        return init
    if all(p.op == "list" and len(p.a[0]) == 1 for c, p in live):
        body = live[-1][1].a[0][0]
        for c, p in reversed(live[:-1]):
            body = ite(c, p.a[0][0], body)
        cond = FALSE
        for c, p in live:
            cond = or_(cond, c)
        # simplify the element under the filter
        m = fmap_(dom, cond, body if len(live) > 1 else live[0][1].a[0][0], idx)
    else:
        body = list_([])
        for c, p in lits:
            body = ite(c, p, body)
        m = mk("flat", map_(dom, body, idx))
    if init.op == "list" and not init.a[0]:
        return m
    return concat((init, m))


def mentions_o(o, x):
    if o is None:
        return False
    if o[0] == "if":
        return mentions(o[1], {x}) or mentions_o(o[2], x) or mentions_o(o[3], x)
    st = o[-1]
    if o[0] in ("ret", "raise") and mentions(o[1], {x}):
        return True
    for d in (st.env, st.heap, st.attrs):
        for v in d.values():
            if mentions(v, {x}):
                return True
    return any(mentions(e, {x}) for e in st.events)


# --------------------------------------------------------------------- summary
class Summary(object):
    """outcome tree of one function for symbolic inputs"""

    def __init__(self, ev, func, out, params):
        self.ev, self.func, self.out, self.params = ev, func, out, params

    def project(self, leaf):
        """term built from leaf(kind, payload, state) through the decision tree"""
        memo = {}

        def go(o):
            r = memo.get(id(o))
            if r is None:
                if o[0] == "if":
                    r = ite(o[1], go(o[2]), go(o[3]))
                else:
                    r = leaf(o)
                memo[id(o)] = r
            return r
        return go(self.out)

    def _norm(self, t, st):
        return self.ev.delam(t, st, Frame(self.func.module, self.func.cls, self.func.qual, 0))

    def ret(self, path=()):
        def leaf(o):
            if o[0] == "raise":
                return mk("RAISE", o[1])
            v = self.ev.val(o[-1], o[1]) if o[0] == "ret" else NONE
            v = self._norm(v, o[-1])
            for p in path:
                v = lift1(v, (lambda x: attr(x, p)) if isinstance(p, str) else (lambda x: sub(x, num(p))))
            return v
        return self.project(leaf)

    def raises(self, types=False):
        def leaf(o):
            if o[0] == "raise":
                return mk("RAISE", o[1]) if types else TRUE
            return const("ok") if types else FALSE
        return self.project(leaf)

    def field(self, obj, name, on_raise=True):
        """value of parameter obj's field at exit"""
        def leaf(o):
            if o[0] == "raise" and not on_raise:
                return mk("dontcare")
            st = o[-1]
            v = self.ev.fields(st, ("p", obj)).get(name)
            if v is None:
                base = self.ev.val(st, mk("ref", ("p", obj)))
                return attr(base, name)
            return self._norm(self.ev.val(st, v), st)
        return self.project(leaf)

    def field_of(self, st, obj, name):
        """changed value of a field, or None"""
        v = self.ev.fields(st, ("p", obj)).get(name)
        if v is None:
            return None
        v = self.ev.val(st, v)
        b = self.ev.content(st, ("p", obj))
        return None if v is attr(b, name) else v

    def left_behind(self):
        """what an exception out of a call made here, or the end, leaves changed"""
        out = dict(self.ev.left)
        for o in leaves(self.out):
            for loc in self.ev.changed_from_entry(o[-1]):
                out.setdefault(loc, None)
        return out

    def raised_with(self, locs):
        """per attribute: whether it differs from what it was where an
        exception raised here leaves"""
        def differs(v, e, n=0):
            if v.op == "ite" and n < 12:
                return ite(v.a[0], differs(v.a[1], e, n + 1), differs(v.a[2], e, n + 1))
            return FALSE if v is e else TRUE
        out = {}
        for obj, name in locs:
            def leaf(o):
                if o[0] != "raise":
                    return NONE
                if (obj, name) not in self.ev.changed_from_entry(o[-1]):
                    return FALSE
                return differs(self._norm(self.ev.val(o[-1], self.ev.fields(o[-1], ("p", obj))[name]), o[-1]),
                               attr(sym(obj), name)) if name in self.ev.fields(o[-1], ("p", obj)) else TRUE
            out[obj, name] = self.project(leaf)
        return out

    def changed_when_raising(self):
        out = set()
        for o in leaves(self.out):
            if o[0] == "raise":
                out |= set(self.ev.changed_from_entry(o[-1]))
        return out

    def param_exit(self, name):
        def leaf(o):
            return self._norm(self.ev.val(o[-1], mk("ref", ("p", name))), o[-1])
        return self.project(leaf)

    def events(self, flt=None):
        def leaf(o):
            t = mk("evseq", tuple(self._norm(e, o[-1]) for e in o[-1].events))
            return filter_events(t, flt) if flt else t
        return self.project(leaf)


def filter_events(t, keep):
    """keep(callterm) -> bool"""
    if t.op == "evseq":
        out = []
        for e in t.a[0]:
            r = filter_events(e, keep)
            if r is None:
                continue
            if r.op == "evseq":
                out.extend(r.a[0])
            else:
                out.append(r)
        return mk("evseq", tuple(out))
    if t.op == "ev":
        return t if keep(t.a[0]) else None
    if t.op == "ite":
        a = filter_events(t.a[1], keep) or mk("evseq", ())
        b = filter_events(t.a[2], keep) or mk("evseq", ())
        r = ite(t.a[0], a, b)
        return r
    if t.op == "evloop":
        r = filter_evlist(t.a[0], keep)
        if r.op == "list" and all(x.op == "evseq" and not x.a[0] for x in r.a[0]):
            return None
        if r.op in ("map", "fmap") and (r.a[-2].op == "evseq" and not r.a[-2].a[0]):
            return None
        return mk("evloop", r)
    return t if keep(t) else None


def filter_evlist(t, keep):
    if t.op == "evseq" or t.op == "evloop" or t.op == "ev":
        return filter_events(t, keep) or mk("evseq", ())
    if t.op == "map":
        tmp = fresh_tmp()
        return map_(t.a[0], filter_evlist(open_(t, tmp, 1), keep), tmp)
    if t.op == "fmap":
        tmp = fresh_tmp()
        return fmap_(t.a[0], open_(t, tmp, 1), filter_evlist(open_(t, tmp, 2), keep), tmp)
    if t.op == "ite":
        return ite(t.a[0], filter_evlist(t.a[1], keep), filter_evlist(t.a[2], keep))
    if t.op == "list":
        return list_([filter_evlist(x, keep) for x in t.a[0]])
    if t.op == "concat":
        return concat(tuple(filter_evlist(x, keep) for x in t.a[0]))
    if t.op == "loop":
        a, bm = _t_rename(t)
        a = (a[0], a[1], tuple(filter_evlist(u, keep) if has_ev(u) else u for u in a[2])) + a[3:]
        from .terms import _close
        return _close("loop", a, bm)
    return t


def has_ev(t, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = t.op in ("ev", "evseq", "evloop") or any(has_ev(k, memo) for k in kids(t))
    memo[t] = r
    return r


def _t_rename(t):
    from .terms import _rename_binder
    return _rename_binder(t)


def summarize(prog, func, selfcls=None, inline=(), opaque=(), args=None, spec_ns=None, classes=None, own=False):
    ev = Ev(prog, inline=inline, opaque=opaque, spec_ns=spec_ns)
    ev.own = own
    ev.top = func
    st = St()
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        names.append(a.vararg.arg)
    if a.kwarg:
        names.append(a.kwarg.arg)
    is_method = func.cls is not None and "staticmethod" not in func.decorators()
    for i, n in enumerate(names):
        pn = n
        if is_method and i == 0:
            pn = "self"
        st.heap[("p", pn)] = sym(pn) if not (args and pn in args) else args[pn]
        st.env[n] = mk("ref", ("p", pn))
        if args and pn in args and isconst(args[pn]):
            st.env[n] = args[pn]
    if is_method:
        ev.slotcls["self"] = selfcls or func.cls
    if classes:
        for n, c in classes.items():
            ev.slotcls[n] = c
    fr = Frame(func.module, func.cls, func.qual, 0, selfcls or func.cls)
    if is_method and names:
        fr.selfname = names[0]
    ev.analysed.add(func.qual)
    ev.stack.append(func.qual)
    out = ev.block(func.node.body, st, fr)
    return Summary(ev, func, out, names)
