"""Difference of two value-graph terms.

compare(actual, reference) walks both terms together.  Conditions are split by
cofactoring (a decision diagram walk with a small fixed theory that discards
contradictory combinations); equal subterms are shared nodes, so only the parts
that differ are visited.  The result is a list of minimal differing pairs with
the conditions under which they are reached."""
from .terms import *
from .norm import MODELLED
from . import terms as _t
from .baseline import PUBLIC_OPAQUE

DONT = mk("dontcare")

# functions whose values differ for generic arguments and which have no
# second spelling that survives normalisation
DISTINCT = {"min", "max", "min2", "max2", "sum", "mean", "abs", "len", "argmin", "argmax",
            "log", "log10", "exp", "floor", "ceil", "round", "pyround", "sorted", "argsort",
            "float", "str", "type", "repr",
            "numpy.std", "numpy.var", "numpy.median", "numpy.nanmin", "scipy.stats.norm.cdf",
            "scipy.stats.norm.pdf", "scipy.stats.norm.sf", "numpy.zeros_like", "numpy.ones_like",
            "numpy.zeros", "numpy.ones", "numpy.inf", "numpy.nan", "numpy.sin", "numpy.cos",
            "numpy.pi", "numpy.sign", "range", "time.time", "list", "tuple", "asarray", "copy",
            "dictkeys", "dictvalues", "dictitems", "dot", "pow", "int", "hasattr", "callable",
            "numpy.prod", "numpy.cumsum", "numpy.percentile", "issubclass", "dict", "set", "iter",
            "numpy.empty", "numpy.empty_like", "numpy.isclose", "numpy.allclose", "invert", "str.lower", "str.upper",
            "numpy.float16", "numpy.float32", "numpy.float64", "numpy.int8", "numpy.int16", "numpy.int32", "numpy.int64",
            "numpy.nan_to_num", "numpy.isfinite", "numpy.isnan"}
COERCE = {"list", "tuple", "asarray", "copy", "numpy.atleast_1d", "float", "bool"}

MODEL_OPS = {"const", "num", "sym", "glob", "attr", "sub", "slice", "list", "tuple", "dict", "call",
             "ite", "poly", "lt", "eq0", "eq", "isnone", "is", "isinst", "in", "truth", "map", "fmap",
             "any", "concat", "res", "obj", "setitem", "dset", "ddel", "rep", "ref", "idx", "bv", "tmp",
             "ev", "evseq", "evloop", "RAISE", "meth", "supermeth", "anyof", "dupd", "set", "lam",
             "dictof", "fmt", "pr", "undef", "dontcare", "after", "loop", "first", "flat", "setmap"}
HARD_OPS = {"unk", "cyc", "closure", "super", "superattr", "bound"}


class Budget(Exception):
    pass


def heads(t, memo):
    """(ok, frozenset of non-distinct function / method heads)"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "after" and t.a[0] == "written through a view":
        # whatever was written, the caller's object is no longer what it was
        r = memo[t] = heads(t.a[1], memo)
        return r
    ok = t.op in MODEL_OPS
    hs = set()
    if t.op in ("map", "fmap", "any", "first", "flat", "loop", "setitem", "after", "rep", "dictof", "dupd", "fmt"):
        hs.add("op:" + t.op)
    if t.op == "glob" and t.a[0] not in DISTINCT:
        hs.add("g:" + t.a[0])
    if t.op in ("meth", "supermeth"):
        hs.add("m:" + str(t.a[1]))
    if t.op == "after":
        hs.add("a:" + str(t.a[0]))
    for k in kids(t):
        o, h = heads(k, memo)
        ok = ok and o
        hs |= h
    r = (ok, frozenset(hs))
    memo[t] = r
    return r


def strip_coerce(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    x = t
    while x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in COERCE and len(x.a[1]) >= 1:
        x = x.a[1][0]
    if x.op == "tuple":
        x = list_(x.a[0])
    if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] == "numpy.sort" and len(x.a[1]) == 1 and not x.a[2]:
        x = call(glob("sorted"), (strip_coerce(x.a[1][0], memo),))
    if x.op in ("concat", "list", "sub", "attr", "call", "poly"):
        a = _smap(x.a, memo)
        if a is not x.a:
            x = _t.rebuild(x, a)
    memo[t] = x
    return x


def as_sums(t, memo):
    """inner products written as sums of products (the same for vectors)"""
    r = memo.get(t)
    if r is None:
        r = t
        a = _smap(t.a, memo, as_sums)
        if a is not t.a:
            r = _t.rebuild(t, a)
        if r.op == "call" and r.a[0].op == "glob" and r.a[0].a[0] in ("dot", "sum") and len(r.a[1]) >= 1 and not r.a[2]:
            xs = r.a[1][:2] if r.a[0].a[0] == "dot" else r.a[1][:1]
            r = call(glob("sum"), (_t.mul(*xs),))
        memo[t] = r
    return r


def lifted(t, memo):
    """arithmetic on the elements of arrays, and on slices of them, written as
    arithmetic on the whole"""
    r = memo.get(t)
    if r is not None:
        return r
    r = t
    while r.op == "call" and r.a[0].op == "glob" and r.a[0].a[0] in COERCE and len(r.a[1]) >= 1:
        r = r.a[1][0]
    a = _smap(r.a, memo, lifted)
    if a is not r.a:
        # an element of a map is not computed: the map may become a whole
        r = mk(r.op, *a) if r.op in _t.BINDERS or r.op == "sub" else _t.rebuild(r, a)
    if r.op == "map":
        w = whole(r.a[1], mk("bv", r.a[2]), r.a[0])
        r = r if w is None else w
    if r.op == "sub" and r.a[1].op == "tuple" and not any(x.op == "slice" for x in r.a[1].a[0]):
        x = r.a[0]
        for k in r.a[1].a[0]:
            x = mk("sub", x, k)
        r = x
    if r.op == "sub" and r.a[1].op == "slice" and r.a[0].op == "poly":
        r = sliced(r.a[0], r.a[1])
    if r.op == "poly":
        sl = {x.a[1] for m, c in r.a[0] for x, k in m if x.op == "sub" and x.a[1].op == "slice"}
        if len(sl) == 1:
            r = sliced(r, sl.pop())
    memo[t] = r
    return r


def whole(b, v, n):
    if not mentions(b, {v}):
        return b
    if b.op == "sub" and not mentions(b.a[0], {v}):
        if b.a[1] is v:
            return b.a[0]
        if b.a[1] is _t.sub_(_t.sub_(n, num(1)), v):
            return mk("sub", b.a[0], _t.REVERSED)
    if b.op == "poly" or b.op == "call" and b.a[0].op == "glob" and b.a[0].a[0] in ("abs", "exp", "log", "square") and not b.a[2]:
        bad = []

        def f(x, memo):
            w = whole(x, v, n)
            if w is None:
                bad.append(x)
            return w or x
        a = _smap(b.a, None, f)
        if not bad:
            return _t.rebuild(b, a)
    return None


def sliced(p, sl):
    def f(x, memo):
        return x if x.op in ("num", "const") or x.op == "sub" and x.a[1] is sl else mk("sub", x, sl)
    return _t.rebuild(p, _smap(p.a, None, f))


def _smap(a, memo, strip_coerce=strip_coerce):
    out, ch = [], False
    for x in a:
        if isinstance(x, T):
            y = strip_coerce(x, memo)
        elif isinstance(x, tuple):
            y = _smap(x, memo, strip_coerce)
        else:
            y = x
        ch = ch or y is not x
        out.append(y)
    return tuple(out) if ch else a


# ------------------------------------------------------------------ theory
TYPES = {"list", "tuple", "str", "dict", "set"}
NUMT = {"int", "float", "numbers.Number", "numbers.Real", "numbers.Integral", "numpy.number"}


BINDY = {"bv", "idx", "tmp", "lam", "closure", "map", "fmap", "loop", "list", "tuple", "dict", "obj", "any", "glob"}


# attributes of objects of the package that are never None (in both programs)
NONNULL = set()
# ... and those holding dicts without a value that is None
SOMEVALUES = set()


class Facts(object):
    __slots__ = ("d", "_key", "dec")

    def __init__(self, d=None):
        self.d = d or {}
        self._key = None
        self.dec = {}

    def add(self, atom, val):
        d = dict(self.d)
        d[atom] = val
        return Facts(d)

    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def decide(self, p):
        r = self.d.get(p)
        if r is not None:
            return r
        r = self.dec.get(p, NONE)
        if r is NONE:
            r = self.dec[p] = self._decide(p)
        return r

    def _decide(self, p):
        if p.op == "truth" and any(q.op in ("lt", "eq0") for q in self.d):
            lo, hi, il, neqs = self.bounds(_t.length(p.a[0]))
            if hi is not None and hi[0] <= 0:
                return False
            if lo is not None and lo[0] >= 1:
                return True
        h = strhead(p)
        if h is not None or p.op == "eq" and any(x.op == "const" for x in p.a):
            r = self.text(p, h)
            if r is not None:
                return r
        if p.op == "isnone":
            if p.a[0].op == "attr" and p.a[0].a[1] in NONNULL:
                return False
            if p.a[0].op == "sub" and p.a[0].a[0].op == "attr" and p.a[0].a[0].a[1] in SOMEVALUES:
                return False
            for q, v in self.d.items():
                if v and q.op in ("truth", "isinst") and q.a[0] is p.a[0]:
                    return False
                if v and q.op == "eq" and p.a[0] in q.a and isconst(other(q, p.a[0])):
                    return False
                if v and q.op == "in" and q.a[0] is p.a[0]:
                    return None
                if v and q.op == "call" and q.a[0].op == "glob" and q.a[0].a[0] == "callable" and q.a[1][0] is p.a[0]:
                    return False
        elif p.op == "in":
            # nothing is in an empty container
            if self.d.get(mk("truth", p.a[1])) is False:
                return False
        elif p.op == "truth":
            z = self.d.get(mk("eq0", p.a[0]))
            if z is True:
                return False
            if z is False and p.a[0].op == "sub":
                return True
            for q, v in self.d.items():
                if v and q.op == "in" and q.a[1] is p.a[0]:
                    return True
                if v and q.op == "isnone" and q.a[0] is p.a[0]:
                    return False
                if v and q.op == "eq" and p.a[0] in q.a:
                    o = other(q, p.a[0])
                    if isconst(o):
                        return truth(o) is TRUE
        elif p.op == "eq":
            for x, y in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                # None on one side, a value of some type on the other
                for q, v in self.d.items():
                    if v and q.op == "isnone" and q.a[0] is y:
                        for q2, v2 in self.d.items():
                            if v2 and q2.op in ("isinst", "truth") and q2.a[0] is x:
                                return False
            for x, y in ((p.a[0], p.a[1]), (p.a[1], p.a[0])):
                if isconst(y) or y.op == "glob":
                    for q, v in self.d.items():
                        if not v:
                            continue
                        if q.op == "isnone" and q.a[0] is x:
                            return False
                        if q.op == "eq" and x in q.a:
                            o = other(q, x)
                            if o is not y and (isconst(o) and isconst(y) or o.op == y.op == "glob"):
                                return False
                        if q.op == "isinst" and q.a[0] is x and q.a[1].op == "glob" and y.op == "const":
                            if y.a[0] == "str" and q.a[1].a[0] in (TYPES | NUMT) - {"str"}:
                                return False
        elif p.op == "isinst":
            c = p.a[1].a[0] if p.a[1].op == "glob" else None
            for q, v in self.d.items():
                if v and q.op == "isnone" and q.a[0] is p.a[0]:
                    return False
                if v and q.op == "isinst" and q.a[0] is p.a[0] and q.a[1].op == "glob":
                    o = q.a[1].a[0]
                    if c in TYPES and o in TYPES and c != o:
                        return False
                    if (c in TYPES and o in NUMT) or (c in NUMT and o in TYPES):
                        return False
                    if o in ("list", "tuple", "dict", "str", "set") and c in ("collections.abc.Iterable", "collections.abc.Sized"):
                        return True
                    if o in ("int", "float", "numbers.Integral", "numbers.Real") and c == "numbers.Number":
                        return True
                if v and q.op == "eq" and p.a[0] in q.a:
                    o = other(q, p.a[0])
                    if o.op == "const" and o.a[0] == "str":
                        if c == "str":
                            return True
                        if c in TYPES or c in NUMT:
                            return False
                if not v and q.op == "isinst" and q.a[0] is p.a[0] and q.a[1].op == "glob":
                    o = q.a[1].a[0]
                    if o == "collections.abc.Iterable" and c in TYPES:
                        return False
                    if o == "numbers.Number" and c in NUMT:
                        return False
        elif p.op in ("lt", "eq0"):
            if p.op == "eq0" and self.strings(p.a[0]):
                return False
            z = self.d.get(mk("truth", p.a[0])) if p.op == "eq0" else None
            if z is True:
                return False
            if z is False and p.a[0].op == "sub":
                return True
            if p.op == "lt" and not is_intlike(p.a[0]) and self.d.get(mk("anyof", p)) is False:
                # an elementwise comparison none of whose elements hold
                return False
            return self.linear(p)
        elif p.op == "any":
            # any over an empty range
            for q, v in self.d.items():
                if q.op in ("lt",) and False:
                    return None
        return None

    def text(self, p, h):
        """tests of a text, settled by what it is compared with"""
        if h is None:
            x, c = (p.a if p.a[1].op == "const" else p.a[::-1])
            if c.a[0] != "str":
                return None
            for q, v in self.d.items():
                g = strhead(q)
                if g is not None and g[1] is x:
                    r = subst(q, {x: c})
                    if r in (TRUE, FALSE) and (r is TRUE) != v:
                        return False
            return None
        name, x, c = h
        for q, v in self.d.items():
            if v and q.op == "eq" and x in q.a and other(q, x).op == "const":
                r = subst(p, {x: other(q, x)})
                if r in (TRUE, FALSE):
                    return r is TRUE
            g = strhead(q)
            if g is None or g[0] != name or g[1] is not x:
                continue
            o = g[2]
            if name == "str.lt":
                if v and o <= c:
                    return True
                if not v and c <= o:
                    return False
            elif v and getattr(o, name[4:])(c):
                return True
            elif not v and getattr(c, name[4:])(o):
                return False
        return None

    def strings(self, d):
        """d = a text - a number"""
        p = to_poly(d)
        if len(p) == 1 or len(p) == 2 and () in p:
            for m, c in p.items():
                if len(m) == 1:
                    x = m[0][0]
                    for q, v in self.d.items():
                        if v and q.op == "isinst" and q.a[0] is x and q.a[1].op == "glob" and q.a[1].a[0] in TYPES:
                            return True
        return False

    def linear(self, p):
        lo, hi, il, neqs = self.bounds(p.a[0])
        L, k, sign = linpart(p.a[0])
        # p: sign*L + k (<|==) 0
        if L is None:
            return None
        if p.op == "eq0":
            v = -k * sign
            if v in neqs:
                return False
            if lo is not None and (v < lo[0] or (v == lo[0] and lo[1])):
                return False
            if hi is not None and (v > hi[0] or (v == hi[0] and hi[1])):
                return False
            if lo is not None and hi is not None and lo[0] == hi[0] == v and not lo[1] and not hi[1]:
                return True
            return None
        if sign > 0:
            # L < -k
            b = -k
            if hi is not None and (hi[0] < b or (hi[0] == b and hi[1])):
                return True
            if lo is not None and lo[0] >= b:
                return False
        else:
            # L > k
            b = k
            if lo is not None and (lo[0] > b or (lo[0] == b and lo[1])):
                return True
            if hi is not None and hi[0] <= b:
                return False
        return None

    def whole(self, L):
        """a whole number, going by the conditions"""
        p = to_poly(L)
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and (
            is_intlike(x) or self.d.get(isinst(x, glob("int"))) is True) for x, e in m) for m, c in p.items())

    def bounds(self, d):
        """(lo, hi, int, excluded) for the variable part of d; lo/hi = (value, strict)"""
        L, k, s = linpart(d)
        il = L is not None and (is_intlike(L) or self.whole(L))
        lo = hi = None
        neqs = set()

        def up(v, strict):
            nonlocal hi
            if il and strict:
                v, strict = v - 1, False
            if hi is None or v < hi[0] or (v == hi[0] and strict):
                hi = (v, strict)

        def down(v, strict):
            nonlocal lo
            if il and strict:
                v, strict = v + 1, False
            if lo is None or v > lo[0] or (v == lo[0] and strict):
                lo = (v, strict)
        if L is None:
            return lo, hi, il, neqs
        o = ordered(L)
        if o:
            (up if o < 0 else down)(F(0), False)
        if L.op == "call" and L.a[0].op == "glob" and L.a[0].a[0] == "len":
            down(F(0), False)
            tr = self.d.get(truth(L.a[1][0])) if truth(L.a[1][0]).op in ("truth",) else None
            if tr is True:
                down(F(1), False)
            elif tr is False:
                up(F(0), False)
        for q, v in self.d.items():
            if q.op not in ("lt", "eq0"):
                continue
            L2, k2, s2 = linpart(q.a[0])
            if L2 is not L:
                continue
            if q.op == "eq0":
                if v:
                    up(-k2 * s2, False)
                    down(-k2 * s2, False)
                else:
                    neqs.add(-k2 * s2)
            elif s2 > 0:      # L + k2 < 0
                if v:
                    up(-k2, True)
                else:
                    down(-k2, False)
            else:             # -L + k2 < 0  -> L > k2
                if v:
                    down(k2, True)
                else:
                    up(k2, False)
        if il:
            while hi is not None and hi[0] in neqs:
                up(hi[0] - 1, False)
            while lo is not None and lo[0] in neqs:
                down(lo[0] + 1, False)
        return lo, hi, il, neqs


_ord = {}


def ordered(L):
    """sign of low - high of one dimension: its constructor wants them in order"""
    r = _ord.get(L)
    if r is None:
        r, p = 0, to_poly(L)
        if len(p) == 2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "attr" and m[0][0].a[1] in ("low", "high") for m in p):
            (x, u), (y, v) = [(m[0][0], c) for m, c in p.items()]
            if x.a[1] != y.a[1] and x.a[0] is y.a[0] and u == -v:
                r = -1 if (u if x.a[1] == "low" else v) > 0 else 1
        _ord[L] = r
    return r


def strhead(p):
    """(test, text, constant) of a test of a text"""
    t = p.a[0] if p.op == "truth" else p
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("str.endswith", "str.startswith", "str.lt") \
            and len(t.a[1]) == 2 and t.a[1][1].op == "const" and t.a[1][1].a[0] == "str" and t.a[1][0].op != "const":
        return t.a[0].a[0], t.a[1][0], t.a[1][1].a[1]
    return None


_lin = {}


def linpart(d):
    """d = sign*L + k with L canonical (first coefficient positive, unit scale)"""
    r = _lin.get(d)
    if r is not None:
        return r
    p = to_poly(d)
    k = p.pop((), F(0))
    if not p:
        r = (None, k, 1)
    else:
        items = sorted(p.items(), key=lambda mc: mono_key(mc[0]))
        c = items[0][1]
        s = 1 if c > 0 else -1
        L = from_poly({m: v / abs(c) * s for m, v in p.items()})
        r = (L, k / abs(c), s)
    _lin[d] = r
    return r


def other(q, x):
    return q.a[1] if q.a[0] is x else q.a[0]


class Diff(object):
    def __init__(self, facts, a, s, where):
        self.facts, self.a, self.s, self.where = facts, a, s, where
        self.kind = None

    def text(self, n=400):
        cond = [("" if v else "not ") + cut(show(p), 120) for p, v in self.facts.d.items()]
        return "%s: code has %s, property needs %s%s" % (
            self.where or "value", cut(show(self.a), n), cut(show(self.s), n),
            (" when " + " and ".join(cond[:8])) if cond else "")


def cut(s, n):
    return s if len(s) <= n else s[:n - 3] + "..."


def spread(c, facts):
    """z + k*max(u, v) < 0, taken apart"""
    p = to_poly(c.a[0])
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].a[0].op == "glob" \
                and m[0][0].a[0].a[0] in ("min2", "max2") and len(m[0][0].a[1]) == 2:
            rest = from_poly({n: w for n, w in p.items() if n != m})
            ds = []
            for u in m[0][0].a[1]:
                t = add(rest, scale(u, k))
                e = lt(t)
                ds.append(True if e is TRUE else False if e is FALSE else facts.decide(e) if e.op == "lt" else None)
            both = (m[0][0].a[0].a[0] == "max2") == (k > 0)
            if both:
                return True if ds == [True, True] else False if False in ds else None
            return False if ds == [False, False] else True if True in ds else None
    return None


def spelled(t, facts):
    """a copy of a sequence of a known, small length, item by item"""
    x = t.a[1][0]
    n = sized(mk("call", LEN, (x,), ()), facts)
    if n is None:
        return t
    return (_t.list_ if t.a[0].a[0] == "list" else _t.tuple_)([_t.sub(x, _t.num(i)) for i in range(n)])


LEN = glob("len")


def sized(n, facts):
    """the small number a length is known to be"""
    for q, v in facts.d.items():
        if v and q.op == "eq0":
            L, k, s = linpart(q.a[0])
            if L is n and k.denominator == 1 and 0 <= -k * s <= 4:
                return int(-k * s)
    return None


def pick(t, facts):
    """min or max of two numbers the conditions put in order"""
    x, y = t.a[1]
    for u, w in ((x, y), (y, x)):
        c = cmp_lt(u, w)
        while c.op == "ite":
            break
        v = True if c is TRUE else False if c is FALSE else facts.decide(c) if c.op == "lt" else None
        if v is None:
            continue
        small, big = (u, w) if v else (w, u)
        return small if t.a[0].a[0] == "min2" else big
    return t


def counts(t):
    return t.op in ("num", "poly") or t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("len", "min2", "max2")


class Cmp(object):
    def __init__(self, budget=60000, maxdiff=24):
        self.budget = budget
        self.maxdiff = maxdiff
        self.diffs = []
        self.memo = {}
        self.trail = []         # keys of memo, in the order they were added
        self.busy = False
        self.tries = 0
        self.n = 0
        self.hmemo = {}
        self.imemo = {}
        self.smemo = {}
        self.imposs = {}
        self.rmemo = {}
        self.side = {}          # condition -> the sides that ask it first

    # -- deep simplification of a term under facts
    def simp(self, t, facts, memo=None):
        if not facts.d:
            return t
        if memo is None:
            k = facts.key()
            memo = self.smemo.get(k)
            if memo is None:
                if len(self.smemo) > 300:
                    self.smemo.clear()
                memo = self.smemo[k] = {}
        return self._simp(t, facts, memo)

    def _simp(self, t, facts, memo):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "ite":
            c = t.a[0]
            v = facts.decide(c)
            if v is None:
                c2 = self._simp(c, facts, memo)
                if c2 is not c:
                    if c2 is TRUE:
                        v = True
                    elif c2 is FALSE:
                        v = False
                    elif c2.op != "ite":
                        v = facts.decide(c2)
            if v is True:
                r = self._simp(t.a[1], facts, memo)
            elif v is False:
                r = self._simp(t.a[2], facts, memo)
            else:
                a, b = self._simp(t.a[1], facts, memo), self._simp(t.a[2], facts, memo)
                r = t if (a is t.a[1] and b is t.a[2] and c2 is c) else ite(c2, a, b)
        elif t.op in _t.LEAFOPS or not t.a:
            r = t
        elif t.op == "sub" and is_bool(t.a[1]) and t.a[1].op != "const" \
                and facts.d.get(_t.anyof(_t.not_(t.a[1]))) is False:
            r = self._simp(t.a[0], facts, memo)         # the mask selects everything
        elif is_bool(t) and t in facts.d:
            r = TRUE if facts.d[t] else FALSE
        elif t.op in _t.BINDERS:
            r = t
            if not t.op == "lam":
                a0 = self._simp(t.a[0], facts, memo)
                if t.op in ("map", "any", "first"):
                    tmp = fresh_tmp()
                    b0 = open_(t, tmp)
                    b = self._simp(b0, facts, memo)
                    if a0 is not t.a[0] or b is not b0:
                        r = {"map": map_, "any": any_map, "first": first_}[t.op](a0, b, tmp)
                        if r.op not in _t.BINDERS:
                            r = self._simp(r, facts, memo)
                else:
                    m = {}
                    for x in closed_parts(t):
                        y = self._simp(x, facts, memo)
                        if y is not x:
                            m[x] = y
                    if m:
                        r = subst(t, m)
        else:
            a = self._smap(t.a, facts, memo)
            r = t if a is t.a else _t.rebuild(t, a)
            if r.op == "call" and r.a[0].op == "glob" and r.a[0].a[0] in ("min2", "max2") and len(r.a[1]) == 2:
                r = pick(r, facts)
            elif r.op == "call" and r.a[0].op == "glob" and r.a[0].a[0] in ("list", "tuple") and len(r.a[1]) == 1 and not r.a[2]:
                r = spelled(r, facts)
            elif r.op == "call" and r.a[0] is LEN and len(r.a[1]) == 1 and r.a[1][0].op != "star":
                n = sized(r, facts)
                if n is not None:
                    r = _t.num(n)
            elif r.op == "ddel" and facts.decide(_t.in_(r.a[1], r.a[0])) is False:
                r = r.a[0]
            if r is not t and r.op == "ite":
                r = self._simp(r, facts, memo) if r not in memo else memo[r]
        memo[t] = r
        return r

    def _smap(self, a, facts, memo):
        out, ch = [], False
        for x in a:
            if isinstance(x, T):
                y = self._simp(x, facts, memo)
            elif isinstance(x, tuple):
                y = self._smap(x, facts, memo)
            else:
                y = x
            ch = ch or y is not x
            out.append(y)
        return tuple(out) if ch else a

    def head(self, t, facts):
        while t.op == "ite" or t.op == "sub" and t.a[0].op == "ite" and t.a[1].op == "idx":
            if t.op == "sub":
                b, i = t.a
                t = ite(b.a[0], _t.sub(b.a[1], i), _t.sub(b.a[2], i))
                continue
            v = facts.decide(t.a[0])
            if v is None:
                c = self.simp(t.a[0], facts)
                if c is t.a[0]:
                    break
                if c is TRUE:
                    v = True
                elif c is FALSE:
                    v = False
                else:
                    t2 = ite(c, t.a[1], t.a[2])
                    if t2 is t:
                        break
                    t = t2
                    continue
            t = t.a[1] if v else t.a[2]
        return t

    def run(self, a, s, facts=None, where=""):
        """True if no difference"""
        n0 = len(self.diffs)
        self.go(a, s, facts or Facts(), where)
        return len(self.diffs) == n0

    def report(self, a, s, facts, where):
        if len(self.diffs) < self.maxdiff and not self.impossible(facts):
            self.diffs.append(Diff(facts, a, s, where))

    def impossible(self, facts):
        """conditions that rule each other out once the choices in them are made"""
        r = self.imposs.get(facts.key())
        if r is None:
            r = False
            made = {}
            for q, v in facts.d.items():
                if r:
                    break
                rest = Facts({p: w for p, w in facts.d.items() if p is not q})
                c = self.simp(q, rest) if _ites(q) else q
                if c.op == "ite" and c.a[1:] == (FALSE, TRUE):
                    c, v = c.a[0], not v
                if c.op not in ("ite", "num", "const") and made.setdefault(c, v) is not v:
                    r = True
                    continue
                if c.op == "lt":
                    d = spread(c, rest)
                    if d is not None and d is not v:
                        r = True
                        continue
                if c is TRUE or c is FALSE:
                    r = (c is TRUE) is not v
                elif c.op == "not":
                    d = rest.decide(c.a[0])
                    r = d is not None and d is v
                else:
                    d = rest.decide(c)
                    r = d is not None and d is not v
            self.imposs[facts.key()] = r = r or self.apart(facts) or self.same(facts)
        return r

    def same(self, facts):
        """one condition, spelled in two ways, both met and not"""
        if self.busy or self.tries > 100:
            return False
        self.busy = True
        try:
            return self._same(facts)
        finally:
            self.busy = False

    def _same(self, facts):
        qs = [q for q in facts.d if q.op in ("isinst", "isnone", "truth", "lt", "eq0", "eq", "call") and _ites(q)]
        n = 0
        for i, p in enumerate(qs):
            for q in qs[:i]:
                if p.op == q.op and facts.d[p] is not facts.d[q] and n < 8:
                    n += 1
                    self.tries += 1
                    rest = Facts({x: w for x, w in facts.d.items() if x is not p and x is not q})
                    if self.probe_atoms(p, q, rest):
                        return True
        return False

    def apart(self, facts):
        """inequalities that rule each other out taken together"""
        lts = []
        for q, v in facts.d.items():
            if q.op == "lt":
                lts.append((q.a[0], True) if v else (neg(q.a[0]), False))
            elif q.op == "eq0" and v:
                lts += [(q.a[0], False), (neg(q.a[0]), False)]
        if len(lts) > 16:
            return False
        for i, (x, sx) in enumerate(lts):
            for y, sy in lts[:i]:
                z = add(x, y)          # z < 0, or z <= 0
                if len(to_poly(z)) >= len(to_poly(x)) + len(to_poly(y)):
                    continue
                c = mk("lt", z) if z.op != "num" else None
                if c is None:
                    if z.a[0] > 0 or z.a[0] == 0 and (sx or sy):
                        return True
                elif sx or sy:
                    if facts.decide(c) is False:
                        return True
                elif facts.decide(mk("lt", neg(z))) is True:
                    return True
        return False

    def probe(self, a, s, facts):
        """equal under facts? without recording"""
        return self.tried(lambda: self.go(a, s, facts, ""))

    def tried(self, f):
        save, self.diffs = self.diffs, []
        m, n = self.maxdiff, len(self.trail)
        self.maxdiff = 1
        ok = False
        try:
            f()
            ok = not self.diffs
        finally:
            self.diffs, self.maxdiff = save, m
            if not ok:
                # what was compared in vain is not known to be equal
                for k in self.trail[n:]:
                    self.memo.pop(k, None)
                del self.trail[n:]
        return ok

    def go(self, a, s, facts, where):
        if a is s or s is DONT or s.op == "dontcare":
            return
        if len(self.diffs) >= self.maxdiff:
            return
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        a, s = self.head(a, facts), self.head(s, facts)
        if a is s or s.op == "dontcare":
            return
        key = (a, s, facts.key())
        if key in self.memo:
            return
        self.memo[key] = True
        self.trail.append(key)
        if isev(a) or isev(s):
            return self.evgo(a, s, facts, where)
        if a.op == "ite" or s.op == "ite":
            tops = [t.a[0] for t in (a, s) if t.op == "ite"]
            p = min(tops, key=lambda t: t.id)
            # an atom of one side that means the same as an atom of the other
            if len(tops) == 2 and tops[0] is not tops[1] and tops[0].op == tops[1].op \
                    and tops[0].op in ("any", "anyof", "truth", "call", "in", "isnone", "isinst", "lt", "eq0", "eq"):
                if self.probe_atoms(tops[0], tops[1], facts):
                    x, y = tops
                    for v in (True, False):
                        f2 = facts.add(x, v).add(y, v)
                        self.go(a, s, f2, where)
                    return
            was = self.side.setdefault(p.a[0] if p.op == "ite" else p, set())
            for t, n in ((a, "a"), (s, "s")):
                if t.op == "ite" and t.a[0] is p:
                    was.add(n)
            if p.op == "ite":
                p = p.a[0]
            for v in (True, False):
                if self.consistent(facts, p, v):
                    self.go(a, s, facts.add(p, v), where)
            return
        self.shape(a, s, facts, where)

    def byfact(self, a, s, facts):
        if a is NONE or s is NONE:
            return facts.d.get(mk("isnone", s if a is NONE else a)) is True
        for x, y in ((a, s), (s, a)):
            if x.op == "sub" and x.a[1] is _t.FULL and y.op == "call" and y.a[0] is glob("list") and y.a[1] == (x.a[0],) \
                    and facts.decide(mk("isinst", x.a[0], glob("list"))) is True:
                return True
        if not facts.d or a.op in BINDY or s.op in BINDY or any(x.op == "const" and x.a[0] != "str" for x in (a, s)):
            return False
        e = eq(a, s)
        return e is TRUE or e.op in ("eq0", "eq") and (facts.decide(e) is True or self.equated(e, facts))

    def equated(self, e, facts):
        """an equality that holds, once the choices in it are made"""
        for q, v in facts.d.items():
            if v and q.op in ("eq", "eq0") and _ites(q):
                r = self.rmemo.get((q, facts.key()))
                if r is None:
                    r = self.rmemo[q, facts.key()] = self.simp(q, Facts({a: b for a, b in facts.d.items() if a is not q}))
                if r is e:
                    return True
        return False

    def consistent(self, facts, p, val):
        d = facts.decide(p)
        if d is None:
            d = self.implied(p, facts)
        if d is None and p.op in ("lt", "eq0", "eq") and 0 < len(_ites(p)) <= 4:
            d = self.settled(p, facts, 4)
        return d is None or d == val

    def settled(self, p, facts, depth):
        """a condition on a choice, when every way to choose gives the same"""
        q = first_ite(p, facts, self)
        if q is None or not depth:
            return None
        r = None
        for v in (True, False):
            f2 = facts.add(q, v)
            p2 = self.simp(p, f2)
            d = True if p2 is TRUE else False if p2 is FALSE else None
            if d is None and not is_bool(p2) or p2.op == "ite":
                return None
            if d is None:
                d = f2.decide(p2)
            if d is None:
                d = self.settled(p2, f2, depth - 1)
            if d is None or r is not None and r != d:
                return None
            r = d
        return r

    def implied(self, p, facts):
        """the outcome of a condition already settled in another spelling"""
        if p.op not in ("lt", "eq0"):
            return None
        n = bool(minmaxes(p)) or bool(_ites(p))
        for q, v in facts.d.items():
            if q.op == p.op and q is not p and (n or minmaxes(q) or _ites(q)) and linpart(q.a[0])[1] == linpart(p.a[0])[1]:
                k = (p, q, facts.key())
                r = self.imemo.get(k)
                if r is None:
                    self.imemo[k] = False
                    f = Facts({a: b for a, b in facts.d.items() if a is not q})
                    r = self.imemo[k] = self.probe_atoms(p, q, f)
                if r:
                    return v
        return None

    def probe_atoms(self, x, y, facts):
        try:
            return self.probe_kids(x, y, facts)
        except Budget:
            raise

    def probe_kids(self, x, y, facts):
        return self.tried(lambda: self.shape(x, y, facts, ""))

    def shape(self, a, s, facts, where):
        """neither is an undecided conditional"""
        op = a.op
        if counts(a) and counts(s) and is_intlike(a) and is_intlike(s):
            e = eq(a, s)
            if e is TRUE or e.op == "eq0" and (facts.decide(e) is True or self.equated(e, facts)) or e.op == "ite" and self.simp(e, facts) is TRUE:
                return
        elif self.byfact(a, s, facts):
            return
        if op in ("poly", "num") or s.op in ("poly", "num"):
            if self.poly(a, s, facts, where):
                return
        if {op, s.op} == {"map", "rep"}:
            x, y = (a, s) if op == "map" else (s, a)
            if y.a[0].op == "list" and len(y.a[0].a[0]) == 1 and fixed(y.a[0].a[0][0]):
                y = map_(y.a[1], y.a[0].a[0][0], fresh_tmp())
                if y.op == "map":
                    return self.go(*((x, y) if op == "map" else (y, x)) + (facts, where))
        if {op, s.op} == {"any", "in"}:
            # membership spelled out
            x, y = (a, s) if op == "any" else (s, a)
            c = y.a[1]
            tmp = fresh_idx()
            body = open_(x, tmp)
            el = eq(y.a[0], _t.sub(c, tmp))
            n = call(glob("len"), (c,))
            if not is_bool(c) and n.op not in ("const",):
                w = where + " per element"
                self.go(*((x.a[0], n) if op == "any" else (n, x.a[0])) + (facts, where + " range of iteration"))
                return self.go(*((body, el) if op == "any" else (el, body)) + (facts, w))
        if op != s.op:
            # boolean spelled as conditional already handled; coercions
            return self.leaf(a, s, facts, where)
        if op in ("const", "num", "sym", "glob", "idx", "bv", "tmp", "undef", "unk"):
            return self.leaf(a, s, facts, where)
        if op == "call":
            fa, fs = a.a[0], s.a[0]
            if fa is fs or (fa.op == fs.op and fa.op in ("meth", "supermeth", "attr", "call", "lam", "sym", "sub") and
                            (fa.op not in ("meth", "supermeth", "attr") or fa.a[1] == fs.a[1])):
                if fa is fs and fa.op == "glob" and fa.a[0] in ("min2", "max2") and len(a.a[1]) == 2:
                    return self.comm(a.a[1], s.a[1], a, s, facts, where)
                if len(a.a[1]) == len(s.a[1]) and [k for k, v in a.a[2]] == [k for k, v in s.a[2]]:
                    nm = fname(fa)
                    if fa is not fs:
                        if fa.op in ("meth", "supermeth", "attr"):
                            self.go(fa.a[0], fs.a[0], facts, where)
                        else:
                            self.go(fa, fs, facts, where)
                    for i, (x, y) in enumerate(zip(a.a[1], s.a[1])):
                        self.go(x, y, facts, "%s argument %d of %s" % (where, i, nm) if where.count("argument") < 2 else where)
                    for (k, x), (_, y) in zip(a.a[2], s.a[2]):
                        self.go(x, y, facts, "%s argument %s of %s" % (where, k, nm) if where.count("argument") < 2 else where)
                    return
            return self.leaf(a, s, facts, where)
        if op == "dict":
            da, ds = dict(a.a[0]), dict(s.a[0])
            if set(da) == set(ds):
                for k in da:
                    self.go(da[k], ds[k], facts, where + " [%s]" % show(k))
                return
            for k in set(da) ^ set(ds):
                if all(kk.op == "const" for kk in (set(da) | set(ds))):
                    self.report(da.get(k, UNDEF), ds.get(k, UNDEF), facts, where + " key %s" % show(k))
                else:
                    return self.leaf(a, s, facts, where)
            for k in set(da) & set(ds):
                self.go(da[k], ds[k], facts, where + " [%s]" % show(k))
            return
        if op == "obj":
            fa, fs = dict(a.a[1]), dict(s.a[1])
            self.go(a.a[0], s.a[0], facts, where)
            for n in sorted(set(fa) | set(fs)):
                self.go(fa.get(n) if n in fa else attr(a.a[0], n), fs.get(n) if n in fs else attr(s.a[0], n),
                        facts, where + ".%s" % n)
            return
        if op == "pr":
            if a.a[1] != s.a[1]:
                return self.leaf(a, s, facts, where)
            return self.go(a.a[0], s.a[0], facts, where)
        if op in ("list", "tuple", "evseq", "concat", "fmt"):
            if len(a.a[0]) == len(s.a[0]):
                for i, (x, y) in enumerate(zip(a.a[0], s.a[0])):
                    self.go(x, y, facts, where + ("" if op in ("concat", "fmt") else " item %d" % i if op != "evseq" else " effect"))
                return
            if op == "evseq":
                return self.evdiff(a, s, facts, where)
            return self.leaf(a, s, facts, where)
        if op in ("map", "any", "first"):
            if a.a[0] is not s.a[0]:
                self.go(a.a[0], s.a[0], facts, where + " range of iteration")
            tmp = fresh_idx()
            self.go(open_(a, tmp), open_(s, tmp), within(facts, tmp, a.a[0], s.a[0]), where + " per element")
            return
        if op == "fmap":
            if a.a[0] is not s.a[0]:
                self.go(a.a[0], s.a[0], facts, where + " range of iteration")
            tmp = fresh_idx()
            facts = within(facts, tmp, a.a[0], s.a[0])
            ca, cs = open_(a, tmp, 1), open_(s, tmp, 1)
            self.go(ca, cs, facts, where + " filter")
            c = truth(cs)                           # the element is taken only then
            self.go(ite(c, open_(a, tmp, 2), UNDEF), ite(c, open_(s, tmp, 2), UNDEF), facts, where + " per element")
            return
        if op == "lam":
            if a.a[0] != s.a[0]:
                return self.leaf(a, s, facts, where)
            ta = [fresh_idx2() for _ in range(a.a[0])]
            self.go(subst(a.a[1], {mk("bv", (a.a[2], k)): t for k, t in enumerate(ta)}),
                    subst(s.a[1], {mk("bv", (s.a[2], k)): t for k, t in enumerate(ta)}), facts, where + " function body")
            return
        if op == "loop":
            if len(a.a[1]) != len(s.a[1]):
                return self.report(mk("unk", "loop shape"), s, facts, where)
            i = fresh_idx()
            sl = [fresh_idx2() for _ in a.a[1]]

            def opn(t):
                m = {mk("bv", t.a[-1]): i}
                for k, x in enumerate(sl):
                    m[mk("bv", (t.a[-1], k))] = x
                return m
            ma, ms = opn(a), opn(s)
            self.go(a.a[0], s.a[0], facts, where + " iteration count")
            for k in range(len(sl)):
                self.go(a.a[1][k], s.a[1][k], facts, where + " before the loop")
            for k in range(len(sl)):
                self.go(subst(a.a[2][k], ma), subst(s.a[2][k], ms), facts, where + " loop body")
            self.go(subst(a.a[3], ma), subst(s.a[3], ms), facts, where + " loop exit")
            return
        if op in ("eq", "is"):
            return self.comm(a.a, s.a, a, s, facts, where)
        if op in ("lt", "eq0"):
            # same atom up to equal subterms
            return self.go(a.a[0], s.a[0], facts, where + " condition")
        if op == "fresh" and a.a[0] is not s.a[0]:
            return self.report(a, s, facts, where)
        if op == "attr" and a.a[1] != s.a[1]:
            return self.leaf(a, s, facts, where)
        if op == "meth" and a.a[1] != s.a[1]:
            return self.leaf(a, s, facts, where)
        # generic
        if len(a.a) != len(s.a):
            return self.leaf(a, s, facts, where)
        for x, y in zip(a.a, s.a):
            if isinstance(x, T) and isinstance(y, T):
                continue
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and \
                    all(isinstance(p, T) for p in x + y):
                continue
            if op == "after" and isinstance(x, tuple) and isinstance(y, tuple) and [k[0] for k in x if isinstance(k, tuple)] == [k[0] for k in y if isinstance(k, tuple)] and len(x) == len(y):
                continue
            if op == "res" and isinstance(x, tuple):
                continue
            if x != y:
                return self.leaf(a, s, facts, where)
        for x, y in zip(a.a, s.a):
            if isinstance(x, T):
                self.go(x, y, facts, where)
            elif isinstance(x, tuple):
                for p, q in zip(x, y):
                    if isinstance(p, T):
                        self.go(p, q, facts, where)
                    elif isinstance(p, tuple):
                        self.go(p[1], q[1], facts, where)

    def comm(self, xs, ys, a, s, facts, where):
        if self.quick(xs[0], ys[0], facts):
            return self.go(xs[1], ys[1], facts, where)
        if self.quick(xs[0], ys[1], facts):
            return self.go(xs[1], ys[0], facts, where)
        if self.quick(xs[1], ys[0], facts):
            return self.go(xs[0], ys[1], facts, where)
        if self.quick(xs[1], ys[1], facts):
            return self.go(xs[0], ys[0], facts, where)
        return self.leaf(a, s, facts, where)

    def quick(self, x, y, facts):
        if x is y:
            return True
        return self.probe(x, y, facts)

    def evflat(self, t, facts, out):
        t = self.head(t, facts)
        if t.op == "evseq":
            for x in t.a[0]:
                self.evflat(x, facts, out)
        elif t.op == "ite":
            if not (noev(t.a[1]) and noev(t.a[2])):
                out.append(t)
        elif t.op == "evloop" and t.a[0].op in ("list", "map"):
            m = t.a[0]
            if m.op == "map" and m.a[0].op == "ite":
                n = self.simp(m.a[0], facts)
                if n.op == "num":
                    tmp = fresh_idx()
                    m = _t.map_(n, open_(m, tmp), tmp)
            if m.op == "list":
                for x in m.a[0]:
                    self.evflat(x, facts, out)
            elif not noev(t):
                out.append(t)
        elif not noev(t):
            out.append(t)
        return out

    def evgo(self, a, s, facts, where):
        """sequences of effects, conditional parts split as needed"""
        if not (isev(a) and isev(s)):
            return self.leaf(a, s, facts, where)
        xs, ys = self.evflat(a, facts, []), self.evflat(s, facts, [])

        def same(x, y):
            return x is y or ((x.op == "ite") == (y.op == "ite") and not (x is a and y is s) and self.quick(x, y, facts))
        i = 0
        while i < len(xs) and i < len(ys) and same(xs[i], ys[i]):
            i += 1
        j = 0
        while j < len(xs) - i and j < len(ys) - i and same(xs[-1 - j], ys[-1 - j]):
            j += 1
        xs, ys = xs[i:len(xs) - j], ys[i:len(ys) - j]
        if not xs and not ys:
            return
        ites = [x for x in xs[:1] + ys[:1] if x.op == "ite"] or [x for x in xs + ys if x.op == "ite"]
        if ites and not (len(xs) == len(ys) == 1 and xs[0].op == ys[0].op == "ite" and i + j > 0 and False):
            p = min((x.a[0] for x in ites), key=lambda t: t.id)
            while p.op == "ite":
                p = p.a[0]
            ea, es = mk("evseq", tuple(xs)), mk("evseq", tuple(ys))
            for v in (True, False):
                if self.consistent(facts, p, v):
                    self.go(ea, es, facts.add(p, v), where)
            return
        if len(xs) == len(ys):
            if len(xs) > 1 and self.permuted(xs, ys, facts):
                return self.report(mk("evseq", tuple(xs)), mk("evseq", tuple(ys)), facts, where + " order of effects")
            for x, y in zip(xs, ys):
                if x.op == y.op == "ev":
                    self.go(x.a[0], y.a[0], facts, where + " effect")
                elif x.op == y.op and x.op in ("evloop", "delitem", "setitem_ev", "setattr"):
                    self.shape(x, y, facts, where + " effect")
                else:
                    self.report(x, y, facts, where + " effect")
            return
        self.report(mk("evseq", tuple(xs)), mk("evseq", tuple(ys)), facts, where + " effects")

    def permuted(self, xs, ys, facts):
        """the same effects in another order"""
        left = list(ys)
        for x in xs:
            k = next((k for k, y in enumerate(left) if x is y or (x.op == y.op and self.quick(x, y, facts))), None)
            if k is None:
                return False
            del left[k]
        return True

    def evdiff(self, a, s, facts, where):
        xs, ys = list(a.a[0]), list(s.a[0])
        i = 0
        while i < len(xs) and i < len(ys) and (xs[i] is ys[i] or self.quick(xs[i], ys[i], facts)):
            i += 1
        j = 0
        while j < len(xs) - i and j < len(ys) - i and (xs[-1 - j] is ys[-1 - j] or self.quick(xs[-1 - j], ys[-1 - j], facts)):
            j += 1
        self.report(mk("evseq", tuple(xs[i:len(xs) - j])), mk("evseq", tuple(ys[i:len(ys) - j])), facts, where + " effects")

    def poly(self, a, s, facts, where):
        """numeric terms: cancel common monomials; True when handled"""
        pa, ps = to_poly(a), to_poly(s)
        ra = {m: c for m, c in pa.items() if ps.get(m) != c}
        rs = {m: c for m, c in ps.items() if pa.get(m) != c}
        if not ra and not rs:
            return True
        if any(q.op == "anyof" and not v for q, v in facts.d.items()):
            xa, xs = self.simp(a, facts), self.simp(s, facts)
            if xa is not a or xs is not s:
                self.go(xa, xs, facts, where)
                return True
        # conditionals hidden in factors
        p = None
        for m in list(ra) + list(rs):
            for x, e in m:
                q = first_ite(x, facts, self)
                if q is not None and (p is None or q.id < p.id):
                    p = q
        if p is not None:
            for v in (True, False):
                if self.consistent(facts, p, v):
                    f2 = facts.add(p, v)
                    self.go(self.simp(from_poly(ra), f2), self.simp(from_poly(rs), f2), f2, where)
            return True
        la = sorted(ra.items(), key=lambda mc: mono_key(mc[0]))
        ls = sorted(rs.items(), key=lambda mc: mono_key(mc[0]))
        if len(la) == len(ls) and len(la) <= 6:
            # pair monomials with equal coefficient and factor shape
            used, pairs = set(), []
            for m, c in la:
                best = None
                for j, (m2, c2) in enumerate(ls):
                    if j in used or c != c2 or len(m) != len(m2):
                        continue
                    fp = self.match_factors(m, m2, facts)
                    if fp is None:
                        continue
                    if best is None or len(fp) < len(best[1]):
                        best = (j, fp)
                if best is None:
                    pairs = None
                    break
                used.add(best[0])
                pairs.append(best[1])
            if pairs is not None:
                if a.op == "poly" and s.op == "poly" or len(la) == 1:
                    done = True
                    for fp in pairs:
                        for x, y in fp:
                            if x is a and y is s:
                                done = False
                                continue
                            self.go(x, y, facts, where)
                    if done:
                        return True
                    return False
        if a.op not in ("poly", "num") and s.op not in ("poly", "num"):
            return False
        self.leaf(from_poly(ra), from_poly(rs), facts, where)
        return True

    def match_factors(self, m1, m2, facts):
        """pairs of differing factors with equal exponents, or None"""
        r1 = [f for f in m1 if f not in m2]
        r2 = [f for f in m2 if f not in m1]
        if len(r1) != len(r2):
            return None
        out = []
        for x, e in r1:
            hit = None
            for k, (y, e2) in enumerate(r2):
                if e2 == e and same_shape(x, y):
                    hit = k
                    break
            if hit is None:
                return None
            out.append((x, r2.pop(hit)[0]))
        return out

    def leaf(self, a, s, facts, where):
        a2, s2 = self.simp(a, facts), self.simp(s, facts)
        if a2 is s2:
            return
        if (a2.op == "ite" or s2.op == "ite") and (a2 is not a or s2 is not s):
            return self.go(a2, s2, facts, where)
        if (a2 is not a or s2 is not s) and self.byfact(a2, s2, facts):
            return
        # a condition buried in a non matching term
        p = first_ite(a2, facts, self)
        q = first_ite(s2, facts, self)
        if p is not None or q is not None:
            r = min([x for x in (p, q) if x is not None], key=lambda t: t.id)
            for v in (True, False):
                if self.consistent(facts, r, v):
                    f2 = facts.add(r, v)
                    x, y = self.simp(a2, f2), self.simp(s2, f2)
                    self.go(x, y, f2, where)
            return
        # the smaller or larger of two numbers, spelled as a condition on the other side
        p = order(a2, s2, facts)
        if p is not None:
            for v in (True, False):
                if self.consistent(facts, p, v):
                    f2 = facts.add(p, v)
                    self.go(self.simp(a2, f2), self.simp(s2, f2), f2, where)
            return
        self.report(a2, s2, facts, where)


_isev = {}


def isev(t):
    r = _isev.get(t)
    if r is None:
        r = t.op in ("ev", "evseq", "evloop") or (t.op == "ite" and (isev(t.a[1]) or isev(t.a[2])))
        _isev[t] = r
    return r


_noev = {}


def noev(t):
    """no effect, whatever happens"""
    r = _noev.get(t)
    if r is None:
        if t.op in ("evseq", "list"):
            r = all(noev(x) for x in t.a[0])
        elif t.op == "ite":
            r = noev(t.a[1]) and noev(t.a[2])
        elif t.op == "evloop":
            r = noev(t.a[0])
        elif t.op in ("map", "fmap"):
            r = noev(t.a[-2])
        else:
            r = False
        _noev[t] = r
    return r


def same_shape(x, y):
    if x.op != y.op:
        return False
    if x.op == "call":
        return x.a[0] is y.a[0] or (x.a[0].op == y.a[0].op and x.a[0].op in ("meth", "lam") and x.a[0].a[1] == y.a[0].a[1])
    if x.op == "attr":
        return x.a[1] == y.a[1]
    return x.op in ("sub", "map", "fmap", "loop", "res", "poly")


def order(a, s, facts):
    """an undecided comparison of the arguments of a min or max only one side has"""
    xs, ys = minmaxes(a), minmaxes(s)
    for t in sorted(xs ^ ys, key=lambda t: t.id):
        x, y = t.a[1]
        for u, w in ((x, y), (y, x)):
            c = cmp_lt(u, w)
            if c.op == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
                c = c.a[0]
            if c.op == "lt" and facts.decide(c) is None:
                return c
    return None


_mm = {}


def minmaxes(t):
    r = _mm.get(t)
    if r is None:
        r, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("min2", "max2") and len(x.a[1]) == 2:
                r.add(x)
            st.extend(_t.kids(x) if x.op not in _t.BINDERS else closed_parts(x))
        _mm[t] = r
    return r


_cp = {}


def closed_parts(t):
    """the largest parts of the body of a binder that depend on no bound variable and hold a choice"""
    r = _cp.get(t)
    if r is None:
        out, st, seen = [], list(kids(t)), set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in _t.LEAFOPS or not x.a:
                continue
            if _t.bheight(x) == 0:
                if choice(x):
                    out.append(x)
            else:
                st.extend(kids(x))
        r = _cp[t] = tuple(sorted(out, key=lambda x: x.id))
    return r


_ch = {}


def choice(t):
    r = _ch.get(t)
    if r is None:
        r = t.op == "ite" or t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("min2", "max2") or any(choice(k) for k in kids(t))
        _ch[t] = r
    return r


_fi = {}


def fixed(t):
    return isconst(t) or t.op == "tuple" and all(fixed(x) for x in t.a[0])


def first_ite(t, facts, cmp_, memo=None, depth=0):
    """first undecided condition atom not under a binder"""
    r = _fi.get(t)
    if r is None:
        r = _ites(t)
        _fi[t] = r
    for c in r:
        if facts.decide(c) is None:
            return c
    return None


def _ites(t):
    """condition atoms of conditionals occurring in t outside binders"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in _t.BINDERS:
            if isinstance(x.a[0], T):
                st.append(x.a[0])
            st.extend(closed_parts(x))
            continue
        if x.op == "ite":
            if x.a[0] not in out and x.a[0].op != "ite":
                out.append(x.a[0])
        st.extend(kids(x))
        if len(out) > 40:
            break
    out.sort(key=lambda c: c.id)
    return tuple(out)


def within(facts, i, n, m):
    """what holds of each turn of a loop"""
    conds = [lt(_t.neg(n))] if n is m else [lt(_t.sub_(i, n)), lt(_t.sub_(i, m))]
    for c in conds:
        v = True
        if c.op == "ite" and c.a[1:] == (FALSE, TRUE):
            c, v = c.a[0], False
        if c.op == "lt" and facts.decide(c) is None:
            facts = facts.add(c, v)
    return facts


def fresh_idx():
    return fresh_tmp()


def fresh_idx2():
    return _t.fresh_tmp2()


def fname(f):
    if f.op == "glob":
        return f.a[0].split(".")[-1]
    if f.op in ("meth", "attr", "supermeth"):
        return "." + str(f.a[1])
    return "call"


# ------------------------------------------------------------------ verdicts
HOLD, BROKEN, UNKNOWN = "HOLD", "BROKEN", "UNKNOWN"


# functions outside the reference's vocabulary whose value is known, with the
# functions and forms that could spell the same value: where the other side
# has none of these, the difference is one of value
_NAN = {"numpy.isnan", "numpy.isfinite", "numpy.where"}
SPELLINGS = {
    "numpy.sort": {"sorted", "argsort", "numpy.unique", "numpy.partition", "m:sort", "a:sort", "heapq", "numpy.lexsort"},
    "numpy.unique": {"set", "op:set", "op:setmap", "numpy.union1d", "frozenset"},
    "numpy.flip": {"op:slice", "reversed"}, "numpy.flipud": {"op:slice", "reversed"}, "numpy.fliplr": {"op:slice", "reversed"},
    "reversed": {"op:slice", "numpy.flip", "numpy.flipud", "a:reverse"},
    "numpy.roll": {"op:slice", "numpy.concatenate", "op:concat"},
    "numpy.nan_to_num": _NAN, "numpy.nanargmin": _NAN, "numpy.nanargmax": _NAN, "numpy.nanmax": _NAN,
    "numpy.nanmin": _NAN, "numpy.nanmean": _NAN, "numpy.nansum": _NAN, "numpy.nanmedian": _NAN, "numpy.nanstd": _NAN,
    "numpy.float32": {"float32"}, "numpy.float16": {"float16"}, "numpy.int8": {"int8"}, "numpy.int16": {"int16"},
    "numpy.int32": {"int32"}, "numpy.uint8": {"uint8"},
    "numpy.trunc": {"int", "floor", "ceil", "astype", "m:astype", "numpy.fix"},
    "numpy.fix": {"int", "floor", "ceil", "astype", "m:astype", "numpy.trunc"},
    "math.trunc": {"int", "floor", "ceil", "astype", "m:astype", "numpy.trunc"},
    "hash": set(), "id": set(),
    "floordiv": {"int", "floor", "ceil", "round", "divmod", "mod", "range", "astype", "m:astype", "numpy.fix", "numpy.trunc",
                 "op:loop", "op:map", "op:fmap", "op:flat", "op:bv", "op:idx", "numpy.unravel_index"},
    "numpy.log2": {"log", "log10"}, "numpy.tan": {"numpy.sin", "numpy.cos"}, "numpy.tanh": {"exp"},
    "numpy.arctan": set(), "numpy.arcsin": set(), "numpy.arccos": set(),
    "numpy.cumsum": {"op:loop", "op:map", "sum"}, "numpy.diff": {"op:slice"},
    "numpy.isclose": set(), "numpy.nextafter": set(), "numpy.spacing": set(),
    "math.isclose": set(),
    "m:index": {"op:loop", "op:first", "argmin", "argmax", "numpy.where", "numpy.nonzero", "op:dictof", "enumerate", "range"},
    "m:count": {"op:loop", "sum", "op:map", "op:fmap", "len"},
    "m:lower": {"m:casefold", "m:upper"}, "m:upper": {"m:lower"}, "m:strip": {"m:lstrip", "m:rstrip"},
    "m:title": set(), "m:capitalize": set(),
    "time.perf_counter": set(), "time.monotonic": set(), "time.process_time": set(),
}
_DRAWS = {"m:" + n for n in ("rand", "randn", "randint", "uniform", "normal", "random_sample", "random", "choice",
                             "permutation", "shuffle", "sample", "standard_normal", "integers", "multinomial", "multivariate_normal")}
for _n in _DRAWS:
    SPELLINGS[_n] = _DRAWS | {"m:rvs", "a:" + _n[2:]}
for _n in ("rand", "randn", "randint", "uniform", "normal", "choice", "permutation", "shuffle", "random", "sample"):
    SPELLINGS["numpy.random." + _n] = {"numpy.random." + m[2:] for m in _DRAWS}
    SPELLINGS["random." + _n] = {"random." + m[2:] for m in _DRAWS}
ITER = {"op:map", "op:fmap", "op:any", "op:first", "op:flat", "op:loop"}


_all = {}


def allheads(t):
    """every function, method and form named in t"""
    r = _all.get(t)
    if r is None:
        r = {"op:" + t.op}
        if t.op == "glob":
            r.add(t.a[0])
        elif t.op in ("meth", "supermeth"):
            r.add("m:" + str(t.a[1]))
        elif t.op == "after":
            r.add("a:" + str(t.a[0]))
        elif t.op == "const" and t.a[0] == "str":
            r.add(t.a[1])
        for k in kids(t):
            r |= allheads(k)
        r = _all[t] = frozenset(r)
    return r


def known_value(h, s, have):
    """does a term with the new head h differ from s for certain?"""
    if h in ITER:
        # a form of iteration against one plain call or constant
        return s.op in ("const", "num", "res") or (
            s.op == "call" and s.a[0].op == "meth" and not (ITER & have) and s.a[0].a[1] not in ("astype", "tolist"))
    n = h[2:] if h.startswith("g:") else h
    p = SPELLINGS.get(n)
    return p is not None and not (p & have)


def one_sided(diffs):
    """conditions under which only one outcome shows differences"""
    pol = {}
    for d in diffs:
        for p, v in d.facts.d.items():
            pol.setdefault(p, set()).add(v)
    return {p for p, v in pol.items() if len(v) == 1}


def same_owner(evs):
    """effects that two of the calls in another order can tell apart: user code,
    or two calls on the same object"""
    seen = {}
    for e in evs:
        t = e.a[0] if e.op == "ev" else None
        if t is None or t.op != "call":
            return True
        f = t.a[0]
        o = f.a[0] if f.op == "meth" else f
        while o.op == "after":
            o = o.a[1]
        if f.op == "sym" or o in seen and seen[o] is not t:
            return True
        seen[o] = t
    return False


def noexit(t):
    return not ({"op:undef", "op:dontcare", "op:RAISE"} & allheads(t))


def changed_in_place(a, s, diff):
    """an object the other side leaves as it is has lost or gained elements"""
    if a.op == "after":
        return a.a[0] in ("pop", "clear", "popitem", "remove", "append", "extend", "insert") and a.a[1] is s
    # a constant written over the elements that meet a condition
    return a.op == "setitem" and a.a[0] is s and is_bool(a.a[1]) and a.a[2].op in ("num", "const") \
        and not any("op:anyof" in allheads(p) or "op:any" in allheads(p) for p in diff.facts.d)


def two_classes(a, s):
    """objects of two different classes of the package"""
    fs = [t.a[0].a[0] for t in (a, s) if t.op == "call" and t.a[0].op == "glob"]
    return len(fs) == 2 and fs[0] != fs[1] and all(
        isinstance(f, str) and f.startswith("skopt.") and f.rsplit(".", 1)[1][:1].isupper() for f in fs)


def verdict(diff, ref_heads, hmemo, guards=frozenset()):
    a, s = diff.a, diff.s
    ok, ha = heads(a, hmemo)
    ok2, hs = heads(s, hmemo)
    sure = changed_in_place(a, s, diff) or two_classes(a, s)
    if not (ok and ok2 or sure):
        return UNKNOWN, "outside the modelled vocabulary"
    for p in diff.facts.d:
        okp, hp = heads(p, hmemo)
        if not okp:
            return UNKNOWN, "condition outside the modelled vocabulary"
        # a condition with new heads: either the very difference is inside it,
        # or it guards something only one way
        if not hp <= ref_heads | ha and not (p in guards and noexit(a) and noexit(s)):
            return UNKNOWN, "condition uses " + ",".join(sorted(hp - ref_heads))
    if not ha <= ref_heads and not sure:
        have = set(allheads(s))
        for p in diff.facts.d:
            h = allheads(p)
            if "op:loop" not in h:
                have |= h
        left = [h for h in ha - ref_heads if not known_value(h, s, have)]
        if left:
            return UNKNOWN, "uses " + ",".join(sorted(left))
    if diff.where and diff.where.endswith(" order of effects") and not same_owner(a.a[0] + s.a[0]):
        return UNKNOWN, "independent effects in another order"
    for x, y in ((a, s), (s, a)):
        if x is FALSE and y.op in ("tmp", "res") and diff.facts.d.get(truth(y)) is False:
            return UNKNOWN, "false in another spelling"
    if diff.where and diff.where.endswith("range of iteration") and ("op:idx" in allheads(a)) != ("op:idx" in allheads(s)):
        return UNKNOWN, "a range that depends on the outer loop against a condition"
    if {a.op, s.op} == {"flat", "map"}:
        return UNKNOWN, "nested loops against a flattened list"
    if strip_coerce(a) is strip_coerce(s):
        return UNKNOWN, "differs only by container conversion"
    if as_sums(a, {}) is as_sums(s, {}):
        return UNKNOWN, "an inner product or a sum of products"
    if lifted(a, {}) is lifted(s, {}):
        return UNKNOWN, "differs only by working on elements or on the whole"
    return BROKEN, ""


_use = {}


def uses(t):
    """(used as a whole in arithmetic, used one element at a time)"""
    r = _use.get(t)
    if r is None:
        w, e = set(), set()
        if t.op == "poly":
            w |= {x for m, c in t.a[0] for x, k in m if x.op in ("sym", "attr", "sub", "call")}
        elif t.op in ("eq", "pow") or t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("exp", "log", "min2", "max2", "abs"):
            w |= {x for x in (t.a if t.op != "call" else t.a[1]) if isinstance(x, T) and x.op in ("sym", "attr", "sub", "call")}
        elif t.op == "sub" and t.a[1].op in ("bv", "idx"):
            e.add(t.a[0])
        for k in kids(t):
            w2, e2 = uses(k)
            w |= w2
            e |= e2
        r = _use[t] = frozenset(w), frozenset(e)
    return r


def vectorised(a, s):
    """what one side treats as a whole array and the other element by element"""
    (wa, ea), (ws, es) = uses(a), uses(s)
    return ((wa - ws) & (es - ea)) | ((ws - wa) & (ea - es))


def parts_of(t):
    """the distinct subterms of t"""
    r, todo = {t}, [t]
    while todo:
        for k in kids(todo.pop()):
            if k not in r:
                r.add(k)
                todo.append(k)
    return r


BUILT = {"op:loop", "op:rep", "op:map", "op:concat", "op:setitem", "asarray", "reshape", "numpy.arange"}


def twins(d, side, roots):
    """one condition held and another failed that may be the same condition on
    the same data, built in two ways; not two that one side tells apart"""
    big = [(p, v, parts_of(p)) for p, v in d.facts.d.items()]
    big = [x for x in big if len(x[2]) >= 40]
    for k, (p, v, x) in enumerate(big):
        for q, w, y in big[:k]:
            if v != w and p.op == q.op and len(x & y) * 2 >= min(len(x), len(y)):
                if side.get(p, frozenset()) & side.get(q, frozenset()) or any(p in r and q in r for r in roots):
                    continue
                if any(headname(z) in BUILT for z in x - y) and any(headname(z) in BUILT for z in y - x):
                    return True
    return False


def headname(z):
    return z.a[0].a[0] if z.op == "call" and z.a[0].op == "glob" else "op:" + z.op


GROWTH = 2000000        # terms one comparison may create


def compare(a, s, budget=60000):
    """-> (verdict, [diff], stats)"""
    c = Cmp(budget)
    cap = _t.CAP[0]
    _t.CAP[0] = min(cap, len(_t._all) + GROWTH)
    done = True
    try:
        if c.run(a, s):
            return HOLD, [], c.n
    except (Budget, RecursionError):
        done = False
    except _t.Blowup:
        if len(_t._all) > cap:
            raise
        done = False
    finally:
        _t.CAP[0] = cap
    if not c.diffs:
        return UNKNOWN, [], c.n
    hm = {}
    rh = heads(s, hm)[1]
    res = UNKNOWN
    g = one_sided(c.diffs) if done and len(c.diffs) < c.maxdiff else frozenset()
    vec = vectorised(a, s)
    roots = (parts_of(a), parts_of(s))
    for d in c.diffs:
        d.kind, d.why = verdict(d, rh, hm, g)
        if vec and d.kind == BROKEN and any(mentions(x, vec) for x in [d.a, d.s] + list(d.facts.d)):
            d.kind, d.why = UNKNOWN, "array operation against a loop over elements"
        if d.kind == BROKEN and len(d.facts.d) > 1:
            if twins(d, c.side, roots):
                d.kind, d.why = UNKNOWN, "conditions on the same data built in two ways"
        if d.kind == BROKEN:
            res = BROKEN
    return res, c.diffs, c.n
