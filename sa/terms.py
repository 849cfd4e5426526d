"""Hash-consed value-graph terms and their normal forms.

Everything here manipulates *syntax*: terms are built from the source text and
rewritten with fixed algebraic laws.  Nothing of the analysed program is run,
no value is ever sampled, no solver is called.
"""
from fractions import Fraction as F
import math

_tab = {}
_all = []


class T(object):
    __slots__ = ("op", "a", "id", "_h", "_bh", "_ref", "_k")

    def __repr__(self):
        return show(self)


class Blowup(Exception):
    """more terms than the bound set for this step"""


CAP = [1 << 60]


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        if len(_all) > CAP[0]:
            raise Blowup
        t = T()
        t.op = op
        t.a = a
        t.id = len(_all)
        t._h = None
        t._bh = None
        t._k = None
        t._ref = None
        _tab[key] = t
        _all.append(t)
    return t


def flat(a):
    """all T children of an argument structure"""
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in flat(x):
                yield y


def kids(t):
    k = t._k
    if k is None:
        k = t._k = tuple(flat(t.a))
    return k


# ---------------------------------------------------------------- constants
NONE = mk("const", "None", None)
TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
UNDEF = mk("undef")


def num(x):
    return mk("num", F(x))


ZERO = num(0)
ONE = num(1)
INF = mk("const", "float", "inf")


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float)):
        if isinstance(v, float):
            if math.isinf(v):
                return INF if v > 0 else neg(INF)
            if math.isnan(v):
                return mk("const", "float", "nan")
        return num(F(v))
    if isinstance(v, str):
        return mk("const", "str", v)
    if isinstance(v, bytes):
        return mk("const", "bytes", v)
    if v is Ellipsis:
        return mk("const", "ellipsis", None)
    return mk("const", type(v).__name__, repr(v))


def isconst(t):
    return t.op in ("const", "num")


def sym(n):
    return mk("sym", n)


def glob(n):
    return mk("glob", n)


def unk(why):
    return mk("unk", why)


# --------------------------------------------------------------- sequences
SEQ_OPS = {"list", "tuple", "map", "fmap", "concat", "rep"}


def is_seq(t):
    if t.op in SEQ_OPS:
        return True
    if t.op == "const" and t.a[0] in ("str", "bytes"):
        return True
    if t.op == "fmt":
        return True
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in (
            "list", "sorted", "tuple", "str", "reversed"):
        return True
    if t.op == "ite":
        return is_seq(t.a[1]) or is_seq(t.a[2])
    if t.op == "slot" and t.a[1] == "seq":
        return True
    if t.op == "sub" and t.a[1].op == "slice":
        return is_seq(t.a[0])
    return False


def list_(items):
    return mk("list", tuple(items))


def tuple_(items):
    return mk("tuple", tuple(items))


def is_str(o):
    return o.op == "const" and o.a[0] == "str" or \
        o.op == "call" and o.a[0].op == "glob" and o.a[0].a[0] == "str" and len(o.a[1]) == 1 and not o.a[2]


def fmt_(pieces):
    """text put together from constants and printed values"""
    out = []

    def add(q):
        if q.op == "fmt":
            for x in q.a[0]:
                add(x)
        elif q.op == "const" and q.a[0] == "str":
            if out and out[-1].op == "const":
                out[-1] = const(out[-1].a[1] + q.a[1])
            elif q.a[1]:
                out.append(q)
        elif q.op == "pr" and q.a[1] == "" and q.a[0].op == "const" and q.a[0].a[0] == "str":
            add(q.a[0])
        elif q.op == "pr" and q.a[1] == "" and (q.a[0].op == "fmt" or is_str(q.a[0])):
            add(q.a[0])
        elif is_str(q):
            add(mk("pr", q.a[1][0], ""))
        else:
            out.append(q)
    for q in pieces:
        add(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    if len(out) == 1 and out[0].op == "pr" and out[0].a[1] == "":
        return call(glob("str"), (out[0].a[0],))
    return mk("fmt", tuple(out))


def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            ps = p.a[0]
        else:
            ps = (p,)
        for q in ps:
            if q.op in ("list", "tuple") and len(q.a[0]) == 0 and len(parts) > 1:
                continue
            if out and out[-1].op == "list" and q.op == "list":
                out[-1] = list_(out[-1].a[0] + q.a[0])
                continue
            if out and out[-1].op == "tuple" and q.op == "tuple":
                out[-1] = tuple_(out[-1].a[0] + q.a[0])
                continue
            out.append(q)
    if not out:
        return parts[0]
    if len(out) == 1:
        return out[0]
    if all(o.op == "fmt" or is_str(o) for o in out) and any(o.op == "fmt" or o.op == "const" for o in out):
        return fmt_(out)
    return mk("concat", tuple(out))


# --------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    if t is TRUE:
        return {(): F(1)}
    if t is FALSE:
        return {}
    return {((t, F(1)),): F(1)}


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: mono_key(mc[0]))
    return mk("poly", tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    if len(d) > 1 and any(_has(m, "numpy.zeros") for m in d) and any(_has(m, "sum") for m in d):
        # a running total that starts from an array of zeros
        d = {m: c for m, c in d.items() if not _has(m, "numpy.zeros")}
    return from_poly(d)


def _has(m, f):
    return any(x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] == f and not x.a[2] for x, e in m)


def scale(t, k):
    k = F(k)
    return from_poly({m: c * k for m, c in to_poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub_(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    out = []
    expand = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "poly" and e.denominator == 1 and 0 < e <= 4:
            expand.append((a, int(e)))
        else:
            out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out), expand


def mul(*ts):
    acc = {(): F(1)}
    for t in ts:
        p = to_poly(t)
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                m, exp = _mono_mul(m1, m2)
                part = {m: c1 * c2}
                for a, e in exp:
                    for _ in range(e):
                        pa = to_poly(a)
                        nxt = {}
                        for q1, k1 in part.items():
                            for q2, k2 in pa.items():
                                q, _x = _mono_mul(q1, q2)
                                nxt[q] = nxt.get(q, 0) + k1 * k2
                        part = nxt
                for q, k in part.items():
                    new[q] = new.get(q, 0) + k
        acc = {m: c for m, c in new.items() if c != 0}
    return from_poly(acc)


def pow_(b, e):
    """b ** e"""
    if e.op != "num":
        return mk("call", glob("pow"), (b, e), ())
    ex = e.a[0]
    if ex == 0:
        return ONE
    if ex == 1:
        return b
    if b.op == "num" and ex.denominator == 1 and (b.a[0] != 0 or ex > 0) and abs(ex) <= 64:
        return mk("num", b.a[0] ** int(ex))
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if ex.denominator == 1 and (c != 0) and abs(ex) <= 64:
            mm = tuple((a, k * ex) for a, k in m)
            mm, exp = _mono_mul(mm, ())
            r = from_poly({mm: c ** int(ex)})
            for a, k in exp:
                for _ in range(k):
                    r = mul(r, a)
            return r
        if c == 1 and len(m) == 1 and m[0][1].denominator == 1 and m[0][1] in (1,):
            return from_poly({((m[0][0], ex),): F(1)})
        return from_poly({((b, ex),): F(1)})
    if ex.denominator == 1 and 0 < ex <= 4:
        r = b
        for _ in range(int(ex) - 1):
            r = mul(r, b)
        return r
    if ex.denominator == 1:
        # content normalisation
        lead = b.a[0][0][1]
        prim = scale(b, 1 / lead)
        return from_poly({((prim, ex),): lead ** int(ex)})
    return from_poly({((b, ex),): F(1)})


def div(a, b):
    return mul(a, pow_(b, num(-1)))


# ------------------------------------------------------------------ booleans
BOOL_ATOMS = {"lt", "eq0", "eq", "isnone", "isinst", "in", "truth", "any",
              "anyof", "hasattr", "is", "nonempty"}
BOOL_CALLS = {"callable", "numpy.allclose", "hasattr", "issubclass",
              "numpy.issubdtype", "sklearn.base.is_regressor",
              "str.endswith", "str.startswith",
              "skopt.utils.is_listlike", "skopt.utils.is_2Dlistlike",
              "skopt.utils.has_gradients"}


def is_bool(t):
    if t is TRUE or t is FALSE or t.op in BOOL_ATOMS:
        return True
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in BOOL_CALLS:
        return True
    if t.op == "ite":
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return False


def truth(t):
    if t is TRUE or t is FALSE:
        return t
    if t is NONE:
        return FALSE
    if t.op == "num":
        return TRUE if t.a[0] != 0 else FALSE
    if t.op == "const":
        if t.a[0] in ("str", "bytes"):
            return TRUE if t.a[1] else FALSE
        return TRUE
    if t.op in ("glob", "lam", "closure", "obj"):
        return TRUE
    if t.op in BOOL_ATOMS:
        return t
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] == "bitand" and any(
            x.op == "num" or x.op == "poly" and any(m == () for m, c in x.a[0]) for x in t.a[1]):
        return not_(eq(t, ZERO))
    if t.op in ("list", "tuple", "dict", "set"):
        return TRUE if len(t.a[0]) else FALSE
    if t.op == "concat":
        r = FALSE
        for p in t.a[0]:
            r = or_(r, truth(p))
        return r
    if t.op == "map":
        return lt(neg(t.a[0]))
    if t.op == "fmap":
        tmp = fresh_tmp()
        return any_map(t.a[0], open_(t, tmp, 1), tmp)
    if t.op == "poly" and all(m == () or True for m, c in t.a[0]):
        return not_(eq(t, ZERO))
    if t.op == "call" and t.a[0].op == "glob":
        f = t.a[0].a[0]
        if f in BOOL_CALLS:
            return t
        if f == "len":
            return truth(t.a[1][0])
        if f in ("asarray",):
            pass
    return mk("truth", t)


_ite_memo = {}


def _cof(t, v, val):
    if t.op == "ite" and t.a[0] is v:
        return t.a[1] if val else t.a[2]
    return t


ARITH = {"poly", "sym", "attr", "sub", "call"}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "lt" and (a is c.a[0] or b is c.a[0]) and a.op in ARITH and b.op in ARITH and sub_(ZERO, a) is b:
        # x if x < 0 else -x
        r = call(glob("abs"), (c.a[0],))
        return r if b is c.a[0] else sub_(ZERO, r)
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op == "ite":
        r = ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    else:
        c2 = c
        if not is_bool(c):
            c2 = truth(c)
            if c2.op == "ite" or c2 is TRUE or c2 is FALSE:
                r = ite(c2, a, b)
                _ite_memo[key] = r
                return r
        c = c2
        v = c
        if a.op == "ite" and a.a[0].id < v.id:
            v = a.a[0]
        if b.op == "ite" and b.a[0].id < v.id:
            v = b.a[0]
        if v is c:
            a1 = _cof(a, c, True)
            b1 = _cof(b, c, False)
            r = _ite0(c, a1, b1)
        else:
            r = _ite0(v, ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True)),
                      ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False)))
    _ite_memo[key] = r
    return r


def _ite0(v, a, b):
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return v
    return mk("ite", v, a, b)


def not_(c):
    c = truth(c)
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(truth(a), truth(b), FALSE)


def or_(a, b):
    return ite(truth(a), TRUE, truth(b))


# --------------------------------------------------------------- comparisons
def is_intlike(t):
    """definitely integer valued"""
    if t.op == "num":
        return t.a[0].denominator == 1
    if t.op == "call" and t.a[0].op == "glob":
        if t.a[0].a[0] in ("min2", "max2"):
            return all(is_intlike(x) for x in t.a[1])
        if t.a[0].a[0] == "sum" and len(t.a[1]) == 1 and t.a[1][0].op == "map":
            return is_intlike(t.a[1][0].a[1])
        return t.a[0].a[0] in ("len", "int", "argmin", "argmax")
    if t.op == "ite":
        return is_intlike(t.a[1]) and is_intlike(t.a[2])
    if t.op in ("bv",):
        return isinstance(t.a[0], int)
    if t.op == "slot" and t.a[1] == "int":
        return True
    if t.op == "idx":
        return True
    if t.op == "poly":
        for m, c in t.a[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0 or not is_intlike(a):
                    return False
        return True
    if t.op == "attr" and t.a[1] in ("ndim",):
        return True
    return finder(t)


def finder(t):
    """text.find(...): an index, -1 when there is none"""
    return t.op == "call" and t.a[0].op == "meth" and t.a[0].a[1] in ("find", "rfind")


def lt(d):
    """atom  d < 0  (d numeric)"""
    if d.op == "num":
        return TRUE if d.a[0] < 0 else FALSE
    if d.op == "ite":
        return ite(d.a[0], lt(d.a[1]), lt(d.a[2]))
    p = to_poly(d)
    if len(p) == 1 and list(p)[0] != ():
        # c*m < 0 : content to +-1
        (m, c), = p.items()
        d = from_poly({m: F(1) if c > 0 else F(-1)})
    else:
        # positive content
        cs = [abs(c) for m, c in sorted(p.items(), key=lambda mc: mono_key(mc[0])) if m != ()]
        if cs:
            d = scale(d, 1 / cs[0])
    # length reasoning
    p = to_poly(d)
    if len(p) == 1 and list(p.values())[0] == -1:
        # there are some that ...
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].a[0] is glob("sum") and len(m[0][0].a[1]) == 1 and not m[0][0].a[2]:
            y = m[0][0].a[1][0]
            if y.op == "map" and y.a[1].op == "ite" and y.a[1].a[1:] in ((ONE, ZERO), (ZERO, ONE)):
                tmp = fresh_tmp()
                b = open_(y, tmp)
                return any_map(y.a[0], b.a[0] if b.op == "ite" and b.a[1] is ONE else eq(b, ONE), tmp)
    if is_intlike(d):
        # choose orientation so that the first non constant monomial is +
        first = sorted((mono_key(m), c) for m, c in p.items() if m != ())[0][1]
        if first < 0:
            # d<0  <=>  not(-d-1 < 0)
            nd = sub_(neg(d), ONE)
            return not_(_lt_atom(nd))
        return _lt_atom(d)
    return mk("lt", d)


def _lt_atom(d):
    p = to_poly(d)
    nz = [(m, c) for m, c in p.items() if m != ()]
    k = p.get((), F(0))
    if len(nz) == 1 and len(nz[0][0]) == 1 and nz[0][1] == 1:
        a, e = nz[0][0][0]
        if e == 1 and k == 0 and finder(a):
            return eq(a, num(-1))
        if e == 1 and a.op == "call" and a.a[0].op == "glob" and a.a[0].a[0] == "len":
            # len(x) + k < 0
            if k >= 0:
                return FALSE
            if k == -1:      # len(x) < 1
                return not_(truth(a.a[1][0]))
    return mk("lt", d)


def cmp_lt(a, b):
    return lt(sub_(a, b))


def cmp_le(a, b):
    return not_(lt(sub_(b, a)))


def _numeric(t):
    return t.op in ("num", "poly") or is_intlike(t)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" and (isconst(b) or b.op == "glob"):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and (isconst(a) or a.op == "glob"):
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if isconst(a) and isconst(b):
        if a.op == b.op:
            return FALSE
        if a.op == "const" and a.a[0] == "bool" or b.op == "const" and b.a[0] == "bool":
            return TRUE if to_poly(a) == to_poly(b) else FALSE
        return FALSE
    if a.op == "glob" and b.op == "glob":
        return FALSE
    if a is NONE:
        return mk("isnone", b)
    if b is NONE:
        return mk("isnone", a)
    for x, y in ((a, b), (b, a)):
        if isconst(x) and y.op in ("list", "tuple", "dict", "lam", "map", "obj"):
            return FALSE
    if _numeric(a) or _numeric(b):
        d = sub_(a, b)
        if d.op == "num":
            return TRUE if d.a[0] == 0 else FALSE
        p = sorted(to_poly(d).items(), key=lambda mc: mono_key(mc[0]))
        nz = [c for m, c in p if m != ()]
        d = scale(d, 1 / nz[0])
        if is_intlike(d):
            pp = to_poly(d)
            nzm = [m for m in pp if m != ()]
            if len(nzm) == 1 and () not in pp and len(nzm[0]) == 1:
                t, e = nzm[0][0]
                if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] == "len":
                    return not_(truth(t.a[1][0]))
        return mk("eq0", d)
    if a.op in ("list", "tuple") and b.op == a.op and len(a.a[0]) == len(b.a[0]):
        r = TRUE
        for x, y in zip(a.a[0], b.a[0]):
            r = and_(r, eq(x, y))
        return r
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def number_array(x):
    """an array of numbers, none of which is None"""
    while x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("reshape", "ravel", "numpy.transpose", "numpy.expand_dims") and x.a[1]:
        x = x.a[1][0]
    if x.op == "ite":
        return number_array(x.a[1]) and number_array(x.a[2])
    return x.op == "poly" or x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in (
        "numpy.linspace", "numpy.arange", "numpy.zeros", "numpy.ones", "exp", "log", "log10", "numpy.logspace")


def is_(a, b):
    if a is b:
        return TRUE
    if b is NONE or a is NONE:
        x = a if b is NONE else b
        if x.op == "ite":
            return ite(x.a[0], is_(x.a[1], NONE), is_(x.a[2], NONE))
        if x.op in ("num", "const", "poly", "list", "tuple", "dict", "map",
                    "fmap", "concat", "glob", "lam", "obj", "set", "fmt", "dset"):
            return FALSE
        if is_bool(x):
            return FALSE
        if x.op == "sub" and number_array(x.a[0]):
            return FALSE
        if x.op == "sub" and x.a[0].op == "dict" and x.a[0].a[0] and all(is_(v, NONE) is FALSE for k, v in x.a[0].a[0]):
            return FALSE
        if x.op == "call" and x.a[0].op == "glob" and (
                x.a[0].a[0].startswith("numpy.") or x.a[0].a[0] in PURE_NONNONE
                or x.a[0].a[0].rsplit(".", 1)[-1][:1].isupper()):
            return FALSE
        return mk("isnone", x)
    if isconst(a) and isconst(b):
        return FALSE
    if b in (TRUE, FALSE) or a in (TRUE, FALSE):
        if a.id > b.id:
            a, b = b, a
        return mk("is", a, b)
    if a.op == "glob" and b.op == "glob":
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("is", a, b)


PURE_NONNONE = {"len", "list", "sorted", "tuple", "dict", "str", "asarray",
                "min", "max", "sum", "abs", "int", "float", "range", "argmin",
                "argmax", "min2", "max2"}


def isinst(x, c):
    """isinstance(x, c), c a class term or tuple"""
    if c.op == "tuple":
        r = FALSE
        for k in c.a[0]:
            r = or_(r, isinst(x, k))
        return r
    if x.op == "ite":
        return ite(x.a[0], isinst(x.a[1], c), isinst(x.a[2], c))
    cn = c.a[0] if c.op == "glob" else None
    if cn in ("NoneType", "types.NoneType"):
        return is_(x, NONE)
    if cn in ("collections.abc.Callable", "collections.Callable", "typing.Callable"):
        return truth(call(glob("callable"), (x,)))
    kind = None
    if x.op == "const":
        kind = {"None": "NoneType", "bool": "bool", "str": "str"}.get(x.a[0])
    elif x.op == "num":
        kind = "number"
    elif x.op in ("list", "map", "fmap"):
        kind = "list"
    elif x.op == "tuple":
        kind = "tuple"
    elif x.op in ("dict",):
        kind = "dict"
    elif x.op == "call" and x.a[0].op == "glob":
        f = x.a[0].a[0]
        if f in ("list", "sorted"):
            kind = "list"
        elif f.rsplit(".", 1)[-1][:1].isupper() and f == cn:
            return TRUE
    if kind is not None and cn is not None:
        simple = {"list": {"list"}, "tuple": {"tuple"}, "str": {"str"},
                  "dict": {"dict"}, "bool": {"bool", "int"}}
        if cn in ("list", "tuple", "str", "dict", "set", "bool"):
            if kind == "number":
                return FALSE
            return TRUE if cn in simple.get(kind, ()) else FALSE
        if cn in ("collections.abc.Iterable", "typing.Iterable") and kind in ("list", "tuple", "dict", "str"):
            return TRUE
        if kind in ("NoneType", "list", "tuple", "str", "dict") and cn in (
                "int", "float", "numbers.Number", "numbers.Real", "numbers.Integral"):
            return FALSE
    return mk("isinst", x, c)


def in_(x, s):
    if s.op in ("list", "tuple", "set"):
        r = FALSE
        for e in s.a[0]:
            r = or_(r, eq(x, e))
        return r
    if s.op == "ite":
        return ite(s.a[0], in_(x, s.a[1]), in_(x, s.a[2]))
    if s.op == "const" and x.op == "const" and s.a[0] == "str" == x.a[0]:
        return TRUE if x.a[1] in s.a[1] else FALSE
    if s.op == "call" and s.a[0].op == "glob" and s.a[0].a[0] in ("list", "tuple", "set", "dictkeys", "sorted"):
        return in_(x, s.a[1][0])
    if s.op == "dict":
        r = FALSE
        for k, v in s.a[0]:
            r = or_(r, eq(x, k))
        return r
    if s.op == "dset":
        return or_(eq(x, s.a[1]), in_(x, s.a[0]))
    if s.op == "map":
        # exists i: x == body(i)
        return any_map(s.a[0], eq(x, s.a[1]), s_bv(s))
    return mk("in", x, s)


def s_bv(m):
    return mk("bv", m.a[2])


# ------------------------------------------------------------------- binders
def bheight(t):
    """maximum binder level occurring in t (free or bound)"""
    if t._bh is None:
        h = 0
        if t.op == "bv":
            h = t.a[0] if isinstance(t.a[0], int) else t.a[0][0]
        elif t.op in ("map", "fmap", "any", "first", "sumof"):
            h = max([t.a[-1]] + [bheight(k) for k in kids(t)])
        elif t.op in ("loop",):
            h = max([t.a[-1]] + [bheight(k) for k in kids(t)])
        elif t.op == "lam":
            h = max([t.a[-1]] + [bheight(k) for k in kids(t)])
        else:
            for k in kids(t):
                x = bheight(k)
                if x > h:
                    h = x
        t._bh = h
    return t._bh


def fresh_tmp(_c=[0]):
    _c[0] += 1
    return mk("idx", _c[0])


def mentions(t, xs, memo=None):
    """does t mention any term in set xs"""
    if memo is None:
        memo = {}
        for x in xs:
            if x.op not in ("bv", "idx", "tmp"):
                break
        else:
            return not leafset(t).isdisjoint(xs)
    r = memo.get(t)
    if r is None:
        if t in xs:
            r = True
        else:
            r = False
            for k in kids(t):
                if mentions(k, xs, memo):
                    r = True
                    break
        memo[t] = r
    return r


def map_(n, body, v):
    """[body for v in range(n)]; v is an idx temp"""
    if n.op == "num" and n.a[0].denominator == 1 and 0 <= n.a[0] <= 8:
        return list_([subst(body, {v: num(k)}) for k in range(int(n.a[0]))])
    inside = lt(sub_(v, n))
    if inside.op == "lt" and mentions(body, {inside}):
        body = subst(body, {inside: TRUE})
    past = lt(sub_(sub_(n, num(1)), v))
    if past.op == "lt" and mentions(body, {past}):
        body = subst(body, {past: FALSE})
    lvl = bheight(body) + 1
    b = subst(body, {v: mk("bv", lvl)})
    bv = mk("bv", lvl)
    # eta: [x[i] for i in range(len(x))] == list(x)
    if b.op == "sub" and b.a[1] is bv and not mentions(b.a[0], {bv}) and length(b.a[0]) is n:
        return aslist(b.a[0])
    if b.op == "sub" and b.a[0].op == "call" and b.a[0].a[0] is glob("collections.Counter") and n is length(b.a[0]) \
            and b.a[1].op == "sub" and b.a[1].a == (b.a[0], bv) and not mentions(b.a[0], {bv}):
        return aslist(call(glob("dictvalues"), (b.a[0],)))
    if b.op == "elem" and b.a[1] is bv and not mentions(b.a[0], {bv}) and length(b.a[0]) is n:
        return aslist(b.a[0])
    return mk("map", n, b, lvl)


def aslist(x):
    if x.op in ("list", "map", "fmap"):
        return x
    if x.op == "concat" and x.a[0][0].op in ("list", "map", "fmap"):
        return x
    if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("sorted", "list"):
        return x
    if x.op == "tuple":
        return list_(x.a[0])
    if x.op == "ite":
        return ite(x.a[0], aslist(x.a[1]), aslist(x.a[2]))
    return mk("call", glob("list"), (x,), ())


def fmap_(n, cond, body, v):
    cond = truth(cond)
    if cond is TRUE:
        return map_(n, body, v)
    if cond is FALSE:
        return list_([])
    lvl = max(bheight(body), bheight(cond)) + 1
    bv = mk("bv", lvl)
    return mk("fmap", n, subst(cond, {v: bv}), subst(body, {v: bv}), lvl)


def any_map(n, body, v):
    body = truth(body)
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return lt(neg(n))
    if not mentions(body, {v}):
        return and_(body, lt(neg(n)))
    if n.op == "num" and 0 <= n.a[0] <= 8:
        r = FALSE
        for k in range(int(n.a[0])):
            r = or_(r, subst(body, {v: num(k)}))
        return r
    lvl = bheight(body) + 1
    return mk("any", n, subst(body, {v: mk("bv", lvl)}), lvl)


def first_(n, body, v):
    lvl = bheight(body) + 1
    return mk("first", n, subst(body, {v: mk("bv", lvl)}), lvl)


def open_(m, i, which=1):
    """instantiate the binder of m's field with i"""
    return subst(m.a[which], {mk("bv", m.a[-1]): i})


# ------------------------------------------------------------------- structure
def keeps_length(t, k):
    """slot k of the loop is only ever assigned item by item"""
    me = mk("bv", (t.a[-1], k))

    def ok(u):
        if u is me:
            return True
        if u.op == "ite":
            return ok(u.a[1]) and ok(u.a[2])
        return u.op == "setitem" and u.a[1].op not in ("slice", "tuple") and ok(u.a[0])
    return ok(t.a[2][k])


def nonneg(x):
    return x.op == "num" and x.a[0] >= 0 or x.op == "call" and x.a[0].op == "glob" and (
        x.a[0].a[0] == "len" or x.a[0].a[0] == "min2" and all(nonneg(y) for y in x.a[1]))


def length(x):
    if x.op in ("list", "tuple", "set", "dict"):
        return num(len(x.a[0]))
    if x.op == "map":
        return x.a[0]
    if x.op == "concat":
        return add(*[length(p) for p in x.a[0]])
    if x.op == "fmap":
        tmp = fresh_tmp()
        return call(glob("sum"), (map_(x.a[0], ite(open_(x, tmp, 1), ONE, ZERO), tmp),))
    if x.op == "ite":
        return ite(x.a[0], length(x.a[1]), length(x.a[2]))
    if x.op == "rep":
        return mul(length(x.a[0]), x.a[1])
    if x.op == "setitem" and x.a[1].op != "slice":
        return length(x.a[0])
    if x.op == "loop" and keeps_length(x, x.a[4]):
        return length(x.a[1][x.a[4]])
    if x.op == "sub" and x.a[1].op == "slice" and x.a[1].a[0] in (NONE, ZERO) and x.a[1].a[2] is NONE and nonneg(x.a[1].a[1]):
        return call(glob("min2"), (length(x.a[0]), x.a[1].a[1]))
    if x.op == "sub" and x.a[1] is REVERSED:
        return length(x.a[0])
    if x.op == "attr" and x.a[1] == "shape":
        return attr(x.a[0], "ndim")
    if x.op == "const" and x.a[0] == "str":
        return num(len(x.a[1]))
    if x.op == "call" and x.a[0].op == "glob":
        f = x.a[0].a[0]
        if f in ("list", "tuple", "sorted", "asarray", "reversed", "dictkeys", "dictvalues", "dictitems",
                 "numpy.zeros_like", "numpy.ones_like", "argsort", "numpy.sort",
                 "numpy.minimum.accumulate", "numpy.maximum.accumulate"):
            return length(x.a[1][0])
        if f == "range" and len(x.a[1]) == 1:
            return x.a[1][0]
        if f in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
            s = x.a[1][0]
            if s.op == "tuple" and s.a[0]:
                return s.a[0][0]
            if s.op != "tuple":
                return s
        if f == "numpy.linspace" and len(x.a[1]) == 3 and not x.a[2]:
            return x.a[1][2]
    d = built_from(x)
    if d is not None and d.op in ("list", "map", "concat"):
        return length(d)
    return mk("call", glob("len"), (x,), ())


def built_from(x):
    """the dimensions an Optimizer or a Space was built from, of which it keeps
    one each (in both programs)"""
    if x.op == "attr" and x.a[1] == "dimensions":
        o = x.a[0]
        if o.op == "attr" and o.a[1] == "space":
            o, c = o.a[0], "skopt.optimizer.optimizer.Optimizer"
        else:
            c = "skopt.space.space.Space"
        if o.op == "call" and o.a[0].op == "glob" and o.a[0].a[0] == c:
            if o.a[1]:
                return o.a[1][0]
            return dict(o.a[2]).get("dimensions")
    return None


def slice_(lo, hi, st):
    if lo is ZERO:
        lo = NONE
    if st is ONE:
        st = NONE
    return mk("slice", lo, hi, st)


FULL = mk("slice", NONE, NONE, NONE)
REVERSED = mk("slice", NONE, NONE, num(-1))


def ofslice(x, i):
    """an element of a slice, as an element of what is sliced"""
    b, (lo, hi, st) = x.a[0], x.a[1].a
    if x.a[1] is REVERSED and i.op in ("num", "idx", "bv", "poly"):
        if i.op == "num" and i.a[0] < 0:
            return sub(b, num(-1 - i.a[0]))
        if is_intlike(i):
            return sub(b, sub_(length(b), add(i, ONE)))
    if st is not NONE or i.op != "num" or i.a[0].denominator != 1:
        return None
    k = i.a[0]
    if hi is NONE and lo.op == "num" and lo.a[0] >= 0 and k >= 0:
        return sub(b, num(lo.a[0] + k))
    if hi is NONE and lo.op == "num" and lo.a[0] < 0:
        n = -lo.a[0]                       # the last n
        if -n <= k < 0:
            return sub(b, i)
        if 0 <= k < n:
            c = lt(sub_(length(b), num(n)))
            return ite(c, mk("sub", x, i), sub(b, num(k - n)))
    if lo in (NONE, ZERO) and hi is not NONE and not (hi.op == "num" and hi.a[0] < 0):
        if k == 0:
            return sub(b, i)
        if k == -1:                        # the first hi, a count
            return ite(lt(sub_(length(b), hi)), sub(b, i), sub(b, sub_(hi, ONE)))
    return None


def posindex(x, i):
    """an index counted from the end of an array made with a known length"""
    k = i.a[0][0] if i.op == "tuple" and i.a[0] else i
    if k.op == "slice" and k.a[2] is NONE and i is k:
        lo, hi = (posindex(x, b) if b.op == "num" else b for b in k.a[:2])
        return i if (lo, hi) == k.a[:2] else slice_(lo, hi, NONE)
    if k.op != "num" or k.a[0] >= 0 or k.a[0].denominator != 1:
        return i
    while x.op == "setitem":
        x = x.a[0]
    if x.op != "call" or x.a[0].op != "glob" or x.a[0].a[0] not in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.linspace"):
        return i
    n = length(x)
    if n.op == "call" and n.a[0] is glob("len") and n.a[1][0] is x:
        return i
    k = add(n, k)
    return tuple_((k,) + i.a[0][1:]) if i.op == "tuple" else k


NEWAXIS = glob("numpy.newaxis")


def sub(x, i):
    """x[i]"""
    if i.op == "tuple" and len(i.a[0]) == 2 and i.a[0][1] is FULL:
        i = i.a[0][0]          # a[k, :] == a[k]
    if i is NEWAXIS or i is NONE and x.op not in ("dict", "dset", "ddel", "dictof"):
        return call(glob("numpy.expand_dims"), (x, ZERO))
    if i.op == "tuple" and any(e is NEWAXIS or e is NONE for e in i.a[0]) \
            and all(e is FULL or e is NEWAXIS or e is NONE for e in i.a[0]):
        at = [j for j, e in enumerate(i.a[0]) if e is not FULL]
        if len(at) == 1:
            return call(glob("numpy.expand_dims"), (x, num(at[0])))
    i = posindex(x, i)
    if i.op == "ite":
        return ite(i.a[0], sub(x, i.a[1]), sub(x, i.a[2]))
    if i.op == "call" and i.a[0].op == "glob" and i.a[0].a[0] in ("argmin", "argmax") \
            and i.a[1][0] in (x, strip_arr(x)):
        return mk("call", glob(i.a[0].a[0][3:]), (strip_arr(x),), ())
    if x.op == "ite" and (i.op in ("num", "slice") or x.a[1].op in SEQ_OPS or x.a[2].op in SEQ_OPS
                          or x.a[1].op in ("dict", "dset") or x.a[2].op in ("dict", "dset")):
        return ite(x.a[0], sub(x.a[1], i), sub(x.a[2], i))
    if x.op in ("list", "tuple"):
        if i.op == "num" and i.a[0].denominator == 1:
            k = int(i.a[0])
            n = len(x.a[0])
            if -n <= k < n:
                return x.a[0][k]
        if i.op == "slice" and all(s is NONE or s.op == "num" for s in i.a):
            vs = [None if s is NONE else int(s.a[0]) for s in i.a]
            return mk(x.op, x.a[0][slice(*vs)])
    if x.op == "list" and len(x.a[0]) == 1 and i.op in ("idx", "bv"):
        return x.a[0][0]       # the only place there is
    if x.op == "map" and i.op not in ("slice", "tuple"):
        if i.op == "num" and i.a[0] < 0:
            return open_(x, add(x.a[0], i))
        return open_(x, i)
    if x.op == "rep" and x.a[0].op in ("list", "tuple") and len(x.a[0].a[0]) == 1 and i.op in ("idx", "bv", "tmp", "num"):
        return x.a[0].a[0][0]      # [e] * n, at any place it has
    if x.op == "concat":
        if i.op == "num" and i.a[0].denominator == 1:
            k = int(i.a[0])
            if k < 0:
                parts = x.a[0]
                last = parts[-1]
                if last.op in ("list", "tuple") and -k <= len(last.a[0]):
                    return last.a[0][k]
            else:
                for p in x.a[0]:
                    if p.op in ("list", "tuple"):
                        if k < len(p.a[0]):
                            return p.a[0][k]
                        k -= len(p.a[0])
                    else:
                        break
    if x.op == "dict":
        for k, v in x.a[0]:
            if k is i:
                return v
        r = mk("sub", x, i)
        if not isconst(i) and 0 < len(x.a[0]) <= 12 and all(k.op == "const" and k.a[0] == "str" for k, v in x.a[0]):
            for k, v in reversed(x.a[0]):
                r = ite(eq(i, k), v, r)
        return r
    if x.op == "dset":
        e = eq(x.a[1], i)
        if e is TRUE:
            return x.a[2]
        if e is FALSE:
            return sub(x.a[0], i)
    if x.op == "setitem" and i is x.a[1]:
        return x.a[2]
    if x.op == "poly" and len(x.a[0]) == 1 and x.a[0][0][1] < 0 and i.op in ("idx", "bv", "call"):
        # of an array, as a list has no opposite
        return scale(sub(scale(x, 1 / x.a[0][0][1]), i), x.a[0][0][1])
    if x.op == "attr" and x.a[1] == "shape" and i is ZERO:
        return length(x.a[0])
    if x.op == "sub" and x.a[1].op == "slice" and i.op in ("idx", "bv") and x.a[1].a[0] in (NONE, ZERO) \
            and x.a[1].a[2] is NONE and nonneg(x.a[1].a[1]):
        return sub(x.a[0], i)
    if x.op == "sub" and x.a[1].op == "slice" and i.op not in ("slice", "tuple"):
        r = ofslice(x, i)
        if r is not None:
            return r
    if x.op == "call" and x.a[0].op == "glob":
        f = x.a[0].a[0]
        if f in ("list", "tuple") and i.op != "slice":
            return sub(x.a[1][0], i)
        if f == "range" and len(x.a[1]) == 1 and i.op in ("idx", "bv"):
            return i
        if f == "zip" and i.op == "num" and x.a[1] and not x.a[2]:
            if len(x.a[1]) == 1 and x.a[1][0].op == "star":
                rows, t = x.a[1][0].a[0], fresh_tmp()
                return map_(length(rows), sub(elem(rows, t), i), t)
            if not any(y.op == "star" for y in x.a[1]):
                return tuple_([sub(y, i) for y in x.a[1]])
        if f in ("dictkeys", "dictvalues", "dictitems") and i.op != "slice" and x.a[1][0].op != "dict":
            k = sub(x.a[1][0], i)
            return k if f == "dictkeys" else sub(x.a[1][0], k) if f == "dictvalues" else tuple_([k, sub(x.a[1][0], k)])
    if i.op == "poly":
        n = length(x)
        if n.op == "call" and n.a[0] is glob("len") and n.a[1][0] is x and i is sub_(n, ONE):
            i = num(-1)
    if i.op == "tuple" and len(i.a[0]) >= 2 and x.op in ("call", "sub", "attr", "sym", "res", "after") \
            and all(k.op in ("idx", "bv") or k.op == "num" and k.a[0] >= 0 for k in i.a[0]):
        for k in i.a[0][:-1]:          # a[i, j] of an array is a[i][j]
            x = mk("sub", x, k)
        i = i.a[0][-1]
    return mk("sub", x, i)


def strip_arr(x):
    while x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("asarray", "list", "tuple") and len(x.a[1]) == 1 and not x.a[2]:
        x = x.a[1][0]
    return x


FITTERS = {"fit"}


def attr(o, name):
    if o.op == "glob":
        return glob(o.a[0] + "." + name)
    if o.op == "obj":
        for n, v in o.a[1]:
            if n == name:
                return v
        return attr(o.a[0], name)
    if o.op == "after" and o.a[0] in FITTERS and name[:1] != "_" and name[-1:] != "_":
        # scikit-learn convention: fitting leaves constructor parameters alone
        return attr(o.a[1], name)
    if name == "T":
        return call(glob("numpy.transpose"), (o,))
    if o.op == "ite" and (o.a[1].op == "obj" or o.a[2].op == "obj"):
        return ite(o.a[0], attr(o.a[1], name), attr(o.a[2], name))
    return mk("attr", o, name)


def dict_(pairs):
    d = {}
    for k, v in pairs:
        d[k] = v
    return mk("dict", tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def dset(d, k, v):
    if d.op == "dict" and isconst(k):
        return dict_(list(d.a[0]) + [(k, v)])
    if d.op == "ite":
        return ite(d.a[0], dset(d.a[1], k, v), dset(d.a[2], k, v))
    if d.op == "dset":
        if d.a[1] is k:
            return dset(d.a[0], k, v)
        if isconst(k) and isconst(d.a[1]) and d.a[1].id > k.id:
            return mk("dset", dset(d.a[0], k, v), d.a[1], d.a[2])
    return mk("dset", d, k, v)


def ddel(d, k):
    if d.op == "dict":
        return mk("dict", tuple((a, b) for a, b in d.a[0] if a is not k))
    if d.op == "dset" and d.a[1] is k:
        return ddel(d.a[0], k)
    return mk("ddel", d, k)


CALLNORM = {}     # filled by norm.py: fn name -> python function(args, kws) -> T or None


def call(fn, args=(), kws=()):
    args = tuple(args)
    kws = tuple(sorted(kws, key=lambda kv: kv[0]))
    if fn.op == "ite":
        return ite(fn.a[0], call(fn.a[1], args, kws), call(fn.a[2], args, kws))
    if kws and kws[0][0] == "**" and fn.op in ("glob", "meth") and kws[0][1].op in ("dict", "ite"):
        d = kws[0][1]
        if d.op == "dict" and all(k.op == "const" and k.a[0] == "str" for k, v in d.a[0]):
            return call(fn, args, kws[1:] + tuple((k.a[1], v) for k, v in d.a[0]))
        if d.op == "ite" and d.a[1].op == "dict" and d.a[2].op == "dict":
            return ite(d.a[0], call(fn, args, (("**", d.a[1]),) + kws[1:]), call(fn, args, (("**", d.a[2]),) + kws[1:]))
    if args and args[-1].op == "star" and fn is not glob("len"):
        x = args[-1].a[0]
        if x.op in ("list", "tuple"):
            return call(fn, args[:-1] + x.a[0], kws)
        if x.op == "ite" and x.a[1].op in ("list", "tuple") and x.a[2].op in ("list", "tuple"):
            return ite(x.a[0], call(fn, args[:-1] + x.a[1].a[0], kws), call(fn, args[:-1] + x.a[2].a[0], kws))
    if fn.op == "glob":
        f = CALLNORM.get(fn.a[0])
        if f is not None:
            r = f(args, kws)
            if r is not None:
                return r
    if fn.op == "lam" and not kws and len(args) == fn.a[0]:
        m = {}
        for k, x in enumerate(args):
            m[mk("bv", (fn.a[-1], k))] = x
        return subst(fn.a[1], m)
    return mk("call", fn, args, kws)


# ---------------------------------------------------------------- substitution
REBUILD = {}      # filled by ev.py


def rebuild(t, a):
    op = t.op
    if op in REBUILD:
        return REBUILD[op](*a)
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "poly":
        return add(*[mul(mk("num", c), *[pow_(x, mk("num", e)) for x, e in m]) for m, c in a[0]])
    if op == "lt":
        return lt(a[0])
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "eq":
        return eq(a[0], a[1])
    if op == "isnone":
        return is_(a[0], NONE)
    if op == "is":
        return is_(a[0], a[1])
    if op == "isinst":
        return isinst(a[0], a[1])
    if op == "in":
        return in_(a[0], a[1])
    if op == "truth":
        return truth(a[0])
    if op == "concat":
        return concat(a[0])
    if op == "fmt":
        return fmt_(a[0])
    if op == "sub":
        return sub(a[0], a[1])
    if op == "attr":
        return attr(a[0], a[1])
    if op == "call":
        return call(a[0], a[1], a[2])
    if op == "slice":
        return slice_(*a)
    if op == "dict":
        return dict_(a[0])
    if op == "dset":
        return dset(*a)
    if op == "ddel":
        return ddel(*a)
    if op == "elem":
        return elem(a[0], a[1])
    if op == "anyof":
        return anyof(a[0])
    if op == "obj":
        return obj_(a[0], a[1])
    if a and a[0] is ZERO:
        # nothing to go through
        if op == "loop":
            return a[1][a[4]]
        if op in ("map", "fmap"):
            return list_([])
        if op == "any":
            return FALSE
    return mk(op, *a)


def obj_(base, fields):
    # storing what is already there
    fields = tuple(sorted((n, v) for n, v in fields if v is not attr(base, n)))
    if not fields:
        return base
    return mk("obj", base, fields)


def anyof(x):
    x = strip_arr(x)
    if x.op == "map":
        tmp = fresh_tmp()
        return any_map(x.a[0], open_(x, tmp), tmp)
    if x.op == "fmap":
        tmp = fresh_tmp()
        return any_map(x.a[0], and_(open_(x, tmp, 1), truth(open_(x, tmp, 2))), tmp)
    if x.op in ("list", "tuple"):
        r = FALSE
        for e in x.a[0]:
            r = or_(r, e)
        return r
    if is_bool(x) or x.op == "ite":
        if x is TRUE or x is FALSE:
            return x
        y = one_array(x)
        if y is not None:
            tmp = fresh_tmp()
            return any_map(length(y), subst(x, {call(glob("asarray"), (y,)): sub(y, tmp)}), tmp)
    return mk("anyof", x)


def one_array(x):
    """what the comparison x of an array with numbers goes through"""
    if x.op == "ite" and x.a[1:] == (FALSE, TRUE):
        x = x.a[0]
    if x.op not in ("lt", "eq0") or x.a[0].op != "poly":
        return None
    found = None
    for m, c in x.a[0].a[0]:
        for t, e in m:
            if t.op == "call" and t.a[0] is glob("asarray") and len(t.a[1]) == 1 and not t.a[2]:
                if len(m) != 1 or e != 1 or found is not None:
                    return None
                found = t.a[1][0]
            elif not (t.op == "attr" and t.a[0].op == "sym"):
                return None
    return found if found is not None and found.op == "attr" else None


def elem(x, i):
    """i-th element yielded when iterating x"""
    if x.op == "call" and x.a[0].op == "glob":
        f = x.a[0].a[0]
        if f == "range" and len(x.a[1]) == 1:
            return i
        if f in ("list", "tuple"):
            return elem(x.a[1][0], i)
    if x.op in ("map", "list", "tuple", "concat"):
        return sub(x, i)
    return sub(x, i)


BINDERS = ("map", "fmap", "any", "first", "loop", "lam")


def _rename_binder(t):
    """replace the bound variables of binder t by fresh temporaries.
    returns (args with temporaries, mapping temp->bv)"""
    lvl = t.a[-1]
    m = {}
    if t.op == "lam":
        for k in range(t.a[0]):
            m[mk("bv", (lvl, k))] = fresh_tmp2()
    elif t.op == "loop":
        m[mk("bv", lvl)] = fresh_tmp()
        for k in range(len(t.a[1])):
            m[mk("bv", (lvl, k))] = fresh_tmp2()
    else:
        m[mk("bv", lvl)] = fresh_tmp()
    memo = {}
    # only the scope of the binder: the range and the initial values may hold
    # another binder of the same level
    scope = {"lam": (1,), "loop": (2, 3), "fmap": (1, 2)}.get(t.op, (1,))
    a = tuple(_msub((x,), m, memo, True)[0] if i in scope else x for i, x in enumerate(t.a))
    return a, m


def fresh_tmp2(_c=[0]):
    _c[0] += 1
    return mk("tmp", _c[0])


def _close(op, a, m):
    """rebuild binder from args holding temporaries"""
    inv = {v: k for k, v in m.items()}
    if op in ("map", "any", "first"):
        (bv, tmp), = m.items()
        return {"map": map_, "any": any_map, "first": first_}[op](a[0], a[1], tmp)
    if op == "fmap":
        (bv, tmp), = m.items()
        return fmap_(a[0], a[1], a[2], tmp)
    if op == "lam":
        tmps = [v for k, v in sorted(m.items(), key=lambda kv: kv[0].a[0][1])]
        return lam_(tmps, a[1])
    if op == "loop":
        idx = [v for k, v in m.items() if isinstance(k.a[0], int)][0]
        slots = [v for k, v in sorted(((k, v) for k, v in m.items() if not isinstance(k.a[0], int)),
                                      key=lambda kv: kv[0].a[0][1])]
        return loop_(a[0], a[1], a[2], a[3], a[4], idx, slots)
    raise AssertionError(op)


def lam_(tmps, body):
    lvl = bheight(body) + 1
    m = {t: mk("bv", (lvl, k)) for k, t in enumerate(tmps)}
    return mk("lam", len(tmps), subst(body, m), lvl)


def loop_(dom, inits, upds, stop, out, idx, slots):
    """loop term: slots start at inits; for idx in range(dom): if stop(after
    the update) leave; value = slot number out.  Slots are put in canonical
    (dependency, depth first from out) order and unused ones dropped."""
    if dom is ZERO:
        return inits[out]
    order = []
    smap = {s: k for k, s in enumerate(slots)}

    def dfs(k):
        if k in order:
            return
        order.append(k)
        for j in used(upds[k]):
            dfs(j)

    def used(t):
        seen = []
        memo = set()
        st = [t]
        while st:
            x = st.pop()
            if x in memo:
                continue
            memo.add(x)
            if x in smap:
                if smap[x] not in seen:
                    seen.append(smap[x])
                continue
            if svars is None or not leafset(x).isdisjoint(svars):
                st.extend(reversed(kids(x)))
        return seen
    svars = frozenset(slots) if all(x.op in ("bv", "idx", "tmp") for x in slots) else None
    dfs(out)
    for j in used(stop):
        dfs(j)
    allb = [upds[k] for k in order] + [stop]
    lvl = max(bheight(x) for x in allb) + 1
    m = {slots[k]: mk("bv", (lvl, n)) for n, k in enumerate(order)}
    m[idx] = mk("bv", lvl)
    memo = {}
    return mk("loop", dom, tuple(inits[k] for k in order),
              tuple(_subst(upds[k], m, memo, True) for k in order),
              _subst(stop, m, memo, True), 0, lvl)


def _msub(a, m, memo, raw):
    out = []
    ch = False
    for x in a:
        if isinstance(x, T):
            y = _subst(x, m, memo, raw)
        elif isinstance(x, tuple):
            y = _msub(x, m, memo, raw)
        else:
            y = x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else a


LEAFOPS = ("sym", "glob", "bv", "idx", "tmp", "undef", "unk", "ref", "const", "num")


_lv = {}
NOLEAF = frozenset()


def leafset(t):
    """the variables occurring in t, free or bound"""
    r = _lv.get(t)
    if r is None:
        if t.op in ("bv", "idx", "tmp"):
            r = frozenset((t,))
        else:
            r = NOLEAF
            for k in kids(t):
                x = leafset(k)
                if x and x is not r:
                    r = x if not r or r <= x else r if x <= r else r | x
        _lv[t] = r
    return r


def _subst(t, m, memo, raw):
    r = memo.get(t)
    if r is not None:
        return r
    vs = memo.get(None)
    if vs is None:
        vs = memo[None] = frozenset(m) if all(k.op in ("bv", "idx", "tmp") for k in m) else False
    if vs and leafset(t).isdisjoint(vs):
        return t
    if t in m:
        r = m[t]
    elif not t.a or t.op in LEAFOPS:
        r = t
    elif t.op in BINDERS and not raw:
        if not mentions(t, set(m)):
            r = t
        else:
            a, bm = _rename_binder(t)
            a2 = _msub(a, m, {}, False)
            r = _close(t.op, a2, bm)
    elif t.op in BINDERS:
        a = _msub(t.a, m, memo, raw)
        if a is t.a:
            r = t
        else:
            t2 = mk(t.op, *a)
            a3, bm = _rename_binder_raw(t2)
            r = _close(t.op, a3, bm)
    else:
        a = _msub(t.a, m, memo, raw)
        r = t if a is t.a else rebuild(t, a)
    memo[t] = r
    return r


def _rename_binder_raw(t):
    return _rename_binder(t)


def subst(t, m):
    if not m:
        return t
    raw = all(v.op in ("idx", "bv", "num", "tmp") for v in m.values())
    return _subst(t, m, {}, raw)


# --------------------------------------------------------------------- display
def show(t, d=0):
    if d > 14:
        return "..."
    op, a = t.op, t.a

    def s(x):
        if isinstance(x, T):
            return show(x, d + 1)
        if isinstance(x, tuple):
            return "(" + ", ".join(s(y) for y in x) + ")"
        return str(x)
    if op == "const":
        return repr(a[1]) if a[0] != "float" else str(a[1])
    if op == "num":
        v = a[0]
        if v.denominator == 1:
            return str(v.numerator)
        return repr(float(v))
    if op == "sym":
        return a[0]
    if op == "glob":
        return a[0]
    if op == "bv":
        return "i%s" % (a[0],)
    if op == "idx":
        return "$%d" % a[0]
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a[:2]) + ("" if a[2] is NONE else ":" + s(a[2]))
    if op == "list":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if op == "tuple":
        return "(" + ", ".join(s(x) for x in a[0]) + ",)"
    if op == "dict":
        return "{" + ", ".join(s(k) + ": " + s(v) for k, v in a[0]) + "}"
    if op == "call":
        return "%s(%s)" % (s(a[0]), ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if op == "ite":
        if a[1] is FALSE and a[2] is TRUE:
            return "not(%s)" % s(a[0])
        if a[2] is FALSE:
            return "(%s and %s)" % (s(a[0]), s(a[1]))
        if a[1] is TRUE:
            return "(%s or %s)" % (s(a[0]), s(a[2]))
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if op == "poly":
        ps = []
        for m, c in a[0]:
            f = [] if c == 1 and m else [str(c) if c.denominator == 1 else repr(float(c))]
            for x, e in m:
                f.append(s(x) if e == 1 else "%s^%s" % (s(x), e))
            ps.append("*".join(f))
        return "(" + " + ".join(ps) + ")"
    if op == "lt":
        return "(%s < 0)" % s(a[0])
    if op == "eq0":
        return "(%s == 0)" % s(a[0])
    if op == "eq":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if op == "isnone":
        return "(%s is None)" % s(a[0])
    if op == "fmt":
        return "text(" + " ".join(s(x) for x in a[0]) + ")"
    if op == "pr":
        return s(a[0]) + ("" if a[1] == "" else ":" + str(a[1]))
    if op == "map":
        return "[%s for i%s<%s]" % (s(a[1]), a[2], s(a[0]))
    if op == "fmap":
        return "[%s for i%s<%s if %s]" % (s(a[2]), a[3], s(a[0]), s(a[1]))
    if op == "any":
        return "any(%s for i%s<%s)" % (s(a[1]), a[2], s(a[0]))
    return "%s<%s>" % (op, ", ".join(s(x) for x in a))
