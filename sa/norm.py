"""Normal forms of the library calls the package uses (numpy, builtins)."""
from .terms import *
from . import terms as _t

N = CALLNORM

# canonical spelling of external names
ALIAS = {
    "numpy.amin": "min", "numpy.min": "min", "builtins.min": "min",
    "numpy.amax": "max", "numpy.max": "max", "builtins.max": "max",
    "numpy.nanmin": "numpy.nanmin",
    "numpy.sum": "sum", "builtins.sum": "sum",
    "numpy.abs": "abs", "numpy.absolute": "abs", "builtins.abs": "abs",
    "math.fabs": "abs", "numpy.fabs": "abs",
    "math.log": "log", "numpy.log": "log", "math.exp": "exp", "numpy.exp": "exp",
    "math.sqrt": "sqrt", "numpy.sqrt": "sqrt",
    "math.log10": "log10", "numpy.log10": "log10",
    "math.floor": "floor", "numpy.floor": "floor",
    "math.ceil": "ceil", "numpy.ceil": "ceil",
    "numpy.argmin": "argmin", "numpy.argmax": "argmax",
    "numpy.argsort": "argsort",
    "numpy.asarray": "asarray", "numpy.array": "asarray", "numpy.asanyarray": "asarray",
    "numpy.atleast_1d": "numpy.atleast_1d",
    "numpy.copy": "copy", "copy.copy": "copy", "copy.deepcopy": "copy",
    "numpy.any": "any_", "builtins.any": "any_", "numpy.all": "all_", "builtins.all": "all_",
    "numpy.mean": "mean", "numpy.concatenate": "numpy.concatenate",
    "numpy.minimum": "min2", "numpy.maximum": "max2",
    "numpy.fmin": "min2", "numpy.fmax": "max2",
    "numpy.round": "round", "numpy.around": "round", "numpy.rint": "round", "builtins.round": "pyround",
    "numpy.square": "square", "numpy.power": "pow", "math.pow": "pow", "builtins.pow": "pow",
    "numpy.negative": "neg", "numpy.logical_not": "lnot", "numpy.invert": "lnot",
    "numpy.logical_and": "land", "numpy.logical_or": "lor",
    "numpy.multiply": "mulf", "numpy.subtract": "subf", "numpy.add": "addf",
    "numpy.divide": "divf", "numpy.true_divide": "divf",
    "numpy.dot": "dot", "numpy.matmul": "dot",
    "math.inf": "numpy.inf", "numpy.Inf": "numpy.inf", "numpy.infty": "numpy.inf",
    "numpy.size": "npsize", "numpy.ndim": "npndim", "numpy.shape": "npshape",
    "operator.itemgetter": "operator.itemgetter",
    "collections.OrderedDict": "dict", "builtins.dict": "dict",
    "scipy.stats.distributions.uniform": "scipy.stats.uniform",
    "scipy.stats.distributions.randint": "scipy.stats.randint",
    "scipy.stats.distributions.rv_discrete": "scipy.stats.rv_discrete",
    "numpy.isclose": "numpy.isclose",
}

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())


def canon_ext(name):
    if name in ALIAS:
        return ALIAS[name]
    if name.startswith("builtins."):
        return name[len("builtins."):]
    return name


# ndarray / str methods that are spelled as functions too
METHOD_FN = {
    "min": "min", "max": "max", "sum": "sum", "mean": "mean", "argmin": "argmin",
    "argmax": "argmax", "argsort": "argsort", "ravel": "ravel", "flatten": "ravel",
    "reshape": "reshape", "dot": "dot", "any": "any_", "all": "all_",
    "round": "round", "copy": "copy", "transpose": "numpy.transpose",
    "clip": "numpy.clip", "std": "numpy.std", "var": "numpy.var",
}


def one(args, kws):
    return len(args) == 1 and not kws


def reg(name):
    def d(f):
        N[name] = f
        return f
    return d


@reg("sqrt")
def _(a, k):
    if one(a, k):
        return pow_(a[0], mk("num", F(1, 2)))


@reg("square")
def _(a, k):
    if one(a, k):
        return mul(a[0], a[0])


@reg("pow")
def _(a, k):
    if len(a) == 2 and not k and a[1].op == "num":
        return pow_(a[0], a[1])


@reg("neg")
def _(a, k):
    if one(a, k):
        return neg(a[0])


@reg("numpy.reciprocal")
def _(a, k):
    if one(a, k):
        return pow_(a[0], num(-1))


@reg("lnot")
def _(a, k):
    if one(a, k):
        return not_(a[0])


@reg("land")
def _(a, k):
    if len(a) == 2 and not k:
        return and_(*a)


@reg("lor")
def _(a, k):
    if len(a) == 2 and not k:
        return or_(*a)


@reg("mulf")
def _(a, k):
    if len(a) == 2 and not k:
        return mul(*a)


@reg("addf")
def _(a, k):
    if len(a) == 2 and not k:
        return add(*a)


@reg("subf")
def _(a, k):
    if len(a) == 2 and not k:
        return sub_(*a)


@reg("divf")
def _(a, k):
    if len(a) == 2 and not k:
        return div(*a)


def arr(x):
    return strip_arr(x)


def kwpop(a, k, names):
    """positional view of args for a signature; None if something else is there"""
    d = dict(k)
    out = list(a)
    for n in names[len(a):]:
        if n in d:
            out.append(d.pop(n))
        else:
            out.append(None)
    if d or len(a) > len(names):
        return None
    return out


def reducer(name):
    @reg(name)
    def _(a, k):
        if name in ("min", "max") and len(a) == 2 and not k:
            if a[1].op == "num" or a[1].op != "const":
                # builtin two argument form
                return call(glob(name + "2"), a)
        if name in ("min", "max") and len(a) > 2 and not k:
            r = a[0]
            for x in a[1:]:
                r = call(glob(name + "2"), (r, x))
            return r
        if name in ("min", "max") and len(a) == 1 and len(k) == 1 and k[0][0] == "key" and k[0][1].op == "lam":
            tmp = fresh_tmp()
            keys = map_(length(a[0]), call(k[0][1], (sub(a[0], tmp),)), tmp)
            return sub(a[0], call(glob("arg" + name), (keys,)))
        if len(a) >= 1:
            x = a[0]
            y = arr(x)
            if name in ("min", "max") and y.op in ("list", "tuple") and 1 <= len(y.a[0]) <= 6 and not k and len(a) == 1:
                r = y.a[0][0]
                for e in y.a[0][1:]:
                    r = call(glob(name + "2"), (r, e))
                return r
            if name == "sum" and y.op in ("list", "tuple") and not k and len(a) == 1 and len(y.a[0]) <= 6:
                return add(*y.a[0]) if y.a[0] else ZERO
            if y is not x:
                return call(glob(name), (y,) + a[1:], k)
            # drop axis=None
            k2 = tuple((n, v) for n, v in k if not (n == "axis" and v is NONE))
            if k2 != k:
                return call(glob(name), a, k2)
            if name == "sum" and y.op == "fmap" and not k and len(a) == 1:
                tmp = fresh_tmp()
                return call(glob("sum"), (map_(y.a[0], ite(open_(y, tmp, 1), open_(y, tmp, 2), ZERO), tmp),))
            if name == "sum" and y.op == "map" and not k and len(a) == 1:
                # linear: pull constants out
                if y.a[1].op == "num":
                    return mul(y.a[0], y.a[1])
        return None


for _n in ("min", "max", "sum", "mean", "argmin", "argmax", "argsort"):
    reducer(_n)


@reg("mean")
def _(a, k):
    if len(a) == 1 and not k:
        y = arr(a[0])
        if y is not a[0]:
            return call(glob("mean"), (y,))


def columns(l, h):
    """the lower and the upper bounds of a space"""
    return l.op == h.op == "sub" and l.a[0] is h.a[0] and l.a[1] is tuple_([FULL, ZERO]) and h.a[1] is tuple_([FULL, ONE]) \
        and arr(l.a[0]).op == "attr" and arr(l.a[0]).a[1] == "transformed_bounds"


def minmax2(name):
    @reg(name)
    def _(a, k):
        if len(a) == 2 and not k:
            x, y = a
            if x is y:
                return x
            if x.op == "num" and y.op == "num":
                return mk("num", (min if name == "min2" else max)(x.a[0], y.a[0]))
            if name == "max2":
                for u, l in ((x, y), (y, x)):
                    if u.op == "call" and u.a[0] is glob("min2"):
                        for h, z in (u.a[1], u.a[1][::-1]):
                            if columns(l, h):
                                # clipping at bounds in order, from either side
                                return call(glob("min2"), (call(glob("max2"), (z, l)), h))
            if x.id > y.id:
                return mk("call", glob(name), (y, x), ())


minmax2("min2")
minmax2("max2")


@reg("numpy.isscalar")
def _(a, k):
    if one(a, k):
        # numbers, but also texts and numpy scalars
        return isinst(a[0], mk("tuple", tuple(glob(c) for c in ("numbers.Number", "str", "bytes", "numpy.generic"))))


@reg("numpy.clip")
def _(a, k):
    k = tuple(({"min": "a_min", "max": "a_max"}.get(n, n), v) for n, v in k)
    p = kwpop(a, k, ["a", "a_min", "a_max"])
    if p and p[0] and (p[1] or p[2]):
        x, lo, hi = p[0], p[1] or NONE, p[2] or NONE
        if lo is not NONE and hi is not NONE:
            return call(glob("min2"), (call(glob("max2"), (arr(x), lo)), hi))
        if lo is NONE:
            return call(glob("min2"), (arr(x), hi))
        return call(glob("max2"), (arr(x), lo))


@reg("abs")
def _(a, k):
    if one(a, k):
        x = a[0]
        if x.op == "num":
            return mk("num", abs(x.a[0]))
        p = sorted(to_poly(x).items(), key=lambda mc: mono_key(mc[0]))
        if p and p[0][1] < 0:
            return call(glob("abs"), (neg(x),))
        if x.op == "ite":
            return ite(x.a[0], call(glob("abs"), (x.a[1],)), call(glob("abs"), (x.a[2],)))


@reg("len")
def _(a, k):
    if one(a, k):
        r = length(a[0])
        return None if (r.op == "call" and r.a[0] is glob("len") and r.a[1] == tuple(a)) else r


@reg("npsize")
def _(a, k):
    p = kwpop(a, k, ["a", "axis"])
    if p and p[1] is ZERO:
        return length(p[0])


@reg("npndim")
def _(a, k):
    if one(a, k):
        return attr(call(glob("asarray"), (arr(a[0]),)), "ndim")


@reg("npshape")
def _(a, k):
    if one(a, k):
        return attr(call(glob("asarray"), (arr(a[0]),)), "shape")


@reg("asarray")
def _(a, k):
    k2 = tuple((n, v) for n, v in k if not (n == "dtype" and v is NONE) and n not in ("copy",))
    if len(a) == 2:
        return call(glob("asarray"), a[:1], k2 + (("dtype", a[1]),))
    if k2 != k:
        return call(glob("asarray"), a, k2)
    if one(a, k):
        x = a[0]
        y = x
        while y.op in ("setmap", "setitem") or y.op == "sub" and y.a[1].op == "slice":
            y = y.a[0]
        if y is not x and y.op == "call" and y.a[0].op == "glob" and (y.a[0].a[0] == "asarray" or y.a[0].a[0].startswith("numpy.")):
            return x
        if x.op == "call" and x.a[0].op == "glob" and (x.a[0].a[0] in ("asarray",) or x.a[0].a[0].startswith("numpy.")):
            return x
        if x.op in ("poly",) or x.op == "num":
            return x
        if x.op == "call" and x.a[0] is glob("list") and not x.a[2]:
            return call(glob("asarray"), x.a[1])
        if x.op == "ite":
            return ite(x.a[0], call(glob("asarray"), (x.a[1],)), call(glob("asarray"), (x.a[2],)))


@reg("copy")
def _(a, k):
    if len(a) >= 1:
        return a[0]


@reg("list")
def _(a, k):
    if not a:
        return list_([])
    if one(a, k):
        r = aslist(a[0])
        if r.op == "call" and r.a[0] is glob("list"):
            x = r.a[1][0]
            if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("dictkeys",):
                return call(glob("list"), x.a[1])
            return None
        return r


@reg("type")
def _(a, k):
    if one(a, k) and a[0] is NONE:
        return glob("NoneType")


@reg("tuple")
def _(a, k):
    if not a:
        return tuple_([])
    if one(a, k) and a[0].op in ("list", "tuple"):
        return tuple_(a[0].a[0])


@reg("sorted")
def _(a, k):
    if len(a) == 1:
        x = a[0]
        if x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("dictkeys", "list", "tuple") and not x.a[2]:
            return call(glob("sorted"), x.a[1], k)


@reg("dictkeys")
def _(a, k):
    return None


@reg("set")
def _(a, k):
    if not a:
        return mk("set", ())
    if one(a, k) and a[0].op in ("list", "tuple"):
        return mk("set", a[0].a[0])


@reg("dict")
def _(a, k):
    if not a and all(n != "**" for n, v in k):
        return dict_([(const(n), v) for n, v in k])
    if len(a) == 1:
        x = a[0]
        base = None
        if x.op in ("dict", "dset", "ddel", "dictof"):
            base = x
        elif x.op in ("list", "tuple") and all(e.op == "tuple" and len(e.a[0]) == 2 for e in x.a[0]):
            base = dict_([(e.a[0][0], e.a[0][1]) for e in x.a[0]])
        elif x.op in ("map", "fmap"):
            base = mk("dictof", x)
        elif x.op == "call" and x.a[0] is glob("dict"):
            base = x
        elif x.op in ("attr", "sym") and not k:
            return x
        if base is not None:
            for n, v in k:
                if n == "**":
                    return None
                base = dset(base, const(n), v)
            return base


@reg("any_")
def _(a, k):
    if one(a, k):
        return anyof(a[0])


@reg("all_")
def _(a, k):
    if one(a, k):
        return allof(a[0])


def allof(x):
    x = arr(x)
    if x.op == "map":
        tmp = fresh_tmp()
        return not_(any_map(x.a[0], not_(open_(x, tmp)), tmp))
    if x.op == "fmap":
        tmp = fresh_tmp()
        return not_(any_map(x.a[0], and_(open_(x, tmp, 1), not_(open_(x, tmp, 2))), tmp))
    if x.op in ("list", "tuple"):
        r = TRUE
        for e in x.a[0]:
            r = and_(r, e)
        return r
    return not_(anyof(not_(x)))


@reg("ravel")
def _(a, k):
    if one(a, k):
        x = a[0]
        # a column of a 2-d array is already flat
        if x.op == "sub" and x.a[1].op == "tuple" and any(e.op == "num" for e in x.a[1].a[0]):
            return x


@reg("reshape")
def _(a, k):
    # reshape(x, (a,b)) == reshape(x, a, b)
    if len(a) > 2 and not k:
        return call(glob("reshape"), (a[0], tuple_(a[1:])))
    if len(a) == 2 and not k and a[1].op == "list":
        return call(glob("reshape"), (a[0], tuple_(a[1].a[0])))


@reg("isinstance")
def _(a, k):
    if len(a) == 2:
        return isinst(a[0], a[1])


@reg("bool")
def _(a, k):
    if one(a, k):
        return truth(a[0])


@reg("float")
def _(a, k):
    if one(a, k):
        if a[0].op in ("num", "poly") or is_intlike(a[0]):
            return a[0]         # a number already
        if a[0].op == "const" and a[0].a[0] == "str" and a[0].a[1].lower().lstrip("+") in ("inf", "infinity"):
            return INF


@reg("int")
def _(a, k):
    if one(a, k) and (a[0] is TRUE or a[0] is FALSE):
        return ONE if a[0] is TRUE else ZERO
    if one(a, k) and is_bool(a[0]):
        return ite(a[0], ONE, ZERO)
    if one(a, k) and is_intlike(a[0]):
        return a[0]


@reg("range")
def _(a, k):
    if len(a) == 2 and a[0] is ZERO:
        return call(glob("range"), a[1:])
    if len(a) == 3 and a[2] is ONE:
        return call(glob("range"), a[:2])
    if len(a) == 3 and a[2] is num(-1) and not k:
        # range(s, e, -1) == [s - i for i < s-e]
        tmp = fresh_tmp()
        return map_(sub_(a[0], a[1]), sub_(a[0], tmp), tmp)
    if len(a) == 2 and not k:
        # range(s, e) == [s + i for i < e-s]
        tmp = fresh_tmp()
        return map_(sub_(a[1], a[0]), add(a[0], tmp), tmp)


@reg("reversed")
def _(a, k):
    if one(a, k):
        return sub(a[0], slice_(NONE, NONE, num(-1)))


@reg("hasattr")
def _(a, k):
    if len(a) == 2 and a[0].op == "obj" and a[1].op == "const":
        if any(n == a[1].a[1] for n, v in a[0].a[1]):
            return TRUE
        return call(glob("hasattr"), (a[0].a[0], a[1]))


@reg("getattr")
def _(a, k):
    if len(a) == 2 and a[1].op == "const" and a[1].a[0] == "str":
        return attr(a[0], a[1].a[1])


@reg("numpy.expand_dims")
def _(a, k):
    p = kwpop(a, k, ["a", "axis"])
    if p and all(p) and k:
        return call(glob("numpy.expand_dims"), tuple(p))


FLOAT64 = ("float", "numpy.float64", "numpy.double", "numpy.float_")


def float64(v):
    return v is NONE or v.op == "glob" and v.a[0] in FLOAT64 or v.op == "const" and v.a[1] in ("float", "float64", "d", "f8")


def filled(name):
    @reg(name)
    def _(a, k):
        d = dict(k)
        if len(a) == 2 and name != "numpy.full":
            d["dtype"], a = a[1], a[:1]
        if not a and "shape" in d:
            a = (d.pop("shape"),)
        if "dtype" in d and float64(d["dtype"]) and name != "numpy.full":
            del d["dtype"]
        k2 = tuple(sorted(d.items()))
        if d.get("dtype") is not None and d["dtype"].op == "glob" and d["dtype"].a[0] in ("bool", "numpy.bool_"):
            if name == "numpy.zeros":
                return call(glob("numpy.full"), (a[0], FALSE))
            if name == "numpy.ones":
                return call(glob("numpy.full"), (a[0], TRUE))
            if name == "numpy.full" and len(a) == 2 and a[1] in (TRUE, FALSE):
                return call(glob("numpy.full"), a)
        if a and a[0].op == "tuple" and len(a[0].a[0]) == 1:
            return call(glob(name), (a[0].a[0][0],) + tuple(a[1:]), k2)
        if k2 != k:
            return call(glob(name), a, k2)


for n_ in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
    filled(n_)


@reg("numpy.transpose")
def _(a, k):
    if one(a, k):
        x = a[0]
        if x.op == "call" and x.a[0] is glob("numpy.transpose") and len(x.a[1]) == 1:
            return x.a[1][0]
        if x.op == "setitem":
            b, i, v = x.a
            if (i.op == "slice" or is_intlike(i)) and b.op in ("call", "setitem"):
                base = b
                while base.op == "setitem":
                    base = base.a[0]
                if twodim(base):
                    tr = glob("numpy.transpose")
                    return mk("setitem", call(tr, (b,)), tuple_([FULL, i]), call(tr, (v,)) if i.op == "slice" else v)
        if twodim(x) and x.a[0] in (glob("numpy.empty"), glob("numpy.zeros"), glob("numpy.ones")):
            return call(x.a[0], (tuple_(x.a[1][0].a[0][::-1]),), x.a[2])


def twodim(x):
    return x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("numpy.empty", "numpy.zeros", "numpy.ones") \
        and x.a[1] and x.a[1][0].op == "tuple" and len(x.a[1][0].a[0]) == 2


@reg("numpy.arange")
def _(a, k):
    """arange(a, b) is a + arange(b - a)"""
    d = dict(k)
    if not a and "stop" in d:
        a = (d.pop("start"), d.pop("stop")) if "start" in d else (d.pop("stop"),)
    elif len(a) == 1 and "stop" in d:
        a = a + (d.pop("stop"),)
    if len(a) == 3 and a[2] is ONE:
        a = a[:2]
    if "dtype" in d and d["dtype"].op == "glob" and d["dtype"].a[0] == "int" and all(is_intlike(x) for x in a):
        del d["dtype"]
    k2 = tuple(sorted(d.items()))
    if len(a) == 2 and not k2:
        return add(a[0], call(glob("numpy.arange"), (sub_(a[1], a[0]),)))
    if k2 != k:
        return call(glob("numpy.arange"), a, k2)


@reg("numpy.linspace")
def _(a, k):
    d = dict(k)
    for n in ("start", "stop", "num", "endpoint")[len(a):]:
        if n not in d:
            break
        a += (d.pop(n),)
    if len(a) == 3 and "endpoint" in d:
        a += (d.pop("endpoint"),)
    k2 = tuple(sorted(d.items()))
    if len(a) == 4 and a[3] is FALSE:
        # without its end: one step more, and the end left out
        return sub(call(glob("numpy.linspace"), (a[0], a[1], add(a[2], ONE)), k2), slice_(NONE, num(-1), NONE))
    if len(a) == 4 and a[3] is TRUE:
        a = a[:3]
    if k2 != k:
        return call(glob("numpy.linspace"), a, k2)


def isin(name):
    @reg(name)
    def _(a, k):
        if len(a) == 2 and not k:
            x = arr(a[0])
            if x.op in ("list", "tuple") and len(x.a[0]) <= 6:
                return list_([in_(e, a[1]) for e in x.a[0]])


isin("numpy.in1d")
isin("numpy.isin")


@reg("numpy.repeat")
def _(a, k):
    if len(a) == 2 and not k and a[0].op in ("num", "const"):
        return call(glob("numpy.full"), (a[1], a[0]))


@reg("dot")
def _(a, k):
    return None


@reg("round")
def _(a, k):
    if len(a) == 2 and a[1] is ZERO:
        return call(glob("round"), a[:1])


@reg("numpy.where")
def _(a, k):
    """an array with one value written where a condition holds"""
    if len(a) != 3 or k:
        return None
    c, x, y = a
    n = not_(c)
    for o, v, m in ((y, x, c), (x, y, n)):
        if o.op != "num" and is_bool(m):
            r = clamp(o, m, v)
            if r is not None:
                return r
    for o, v, m in ((y, x, c), (x, y, n)):
        if v.op == "num" and o.op != "num" and m.op in ("lt", "ite") and o.id in leafids(m):
            return mk("setitem", o, m, v)


def leafids(m):
    r, todo = set(), [m]
    while todo:
        t = todo.pop()
        if t.id not in r:
            r.add(t.id)
            todo.extend(kids(t))
    return r


def clamp(o, k, v):
    """o with v written where o < v (or o > v)"""
    c = k
    if c.op == "ite" and c.a[1] is FALSE and c.a[2] is TRUE:
        c = c.a[0]
        if c.op != "lt":
            return None
        return call(glob("max2"), (o, v)) if lt(sub_(v, o)) is c else call(glob("min2"), (o, v)) if lt(sub_(o, v)) is c else None
    if c.op != "lt":
        return None
    return call(glob("max2"), (o, v)) if lt(sub_(o, v)) is c else call(glob("min2"), (o, v)) if lt(sub_(v, o)) is c else None


for _n in ("endswith", "startswith"):
    @reg("str." + _n)
    def _(a, k, _n=_n):
        if len(a) == 2 and not k and all(x.op == "const" and x.a[0] == "str" for x in a):
            return const(getattr(a[0].a[1], _n)(a[1].a[1]))


@reg("str.lt")
def _(a, k):
    if len(a) == 2 and all(x.op == "const" and x.a[0] == "str" for x in a):
        return const(a[0].a[1] < a[1].a[1])


@reg("filter")
def _(a, k):
    if len(a) == 2:
        return call(glob("list"), (mk("call", glob("filter"), a, ()),))


def linear(name, n=1):
    """a constant factor of an argument is a constant factor of the result"""
    old = N.get(name)

    def f(a, k):
        for i in range(min(n, len(a))):
            if a[i].op == "poly":
                c = sorted(to_poly(a[i]).items(), key=lambda mc: mono_key(mc[0]))[0][1]
                if c != 1:
                    return scale(call(glob(name), a[:i] + (scale(a[i], 1 / c),) + a[i + 1:], k), c)
        return old(a, k) if old else None
    N[name] = f


for _n in ("numpy.expand_dims", "reshape", "ravel", "numpy.transpose", "sum", "mean", "numpy.squeeze",
           "numpy.atleast_2d", "numpy.cumsum"):
    linear(_n)
linear("dot", 2)


# functions whose meaning is covered by the normal forms above or which are
# uninterpreted but only ever compared as themselves
MODELLED = {
    "min", "max", "min2", "max2", "sum", "mean", "abs", "len", "asarray", "list", "tuple",
    "sorted", "argmin", "argmax", "argsort", "log", "log10", "exp", "floor", "ceil",
    "dot", "ravel", "reshape", "round", "copy", "int", "float", "str", "range",
    "dictkeys", "dict", "set", "type", "repr", "pow", "getattr", "hasattr",
    "issubclass", "callable", "super", "id",
    "numpy.zeros", "numpy.ones", "numpy.eye", "numpy.empty", "numpy.zeros_like",
    "numpy.ones_like", "numpy.transpose", "numpy.allclose", "numpy.hstack", "numpy.vstack",
    "numpy.linspace", "numpy.arange", "numpy.einsum", "numpy.sort", "numpy.unique",
    "numpy.in1d", "numpy.isin", "numpy.tile", "numpy.repeat", "numpy.expand_dims",
    "numpy.nextafter", "numpy.minimum.accumulate", "numpy.maximum.accumulate",
    "numpy.std", "numpy.var", "numpy.median", "numpy.corrcoef", "numpy.diff",
    "numpy.full", "numpy.prod", "numpy.cumsum", "numpy.iinfo", "numpy.issubdtype",
    "numpy.bitwise_xor", "numpy.binary_repr", "numpy.isfinite", "numpy.isnan",
    "numpy.inf", "numpy.nan", "numpy.sign", "numpy.nanmin", "numpy.percentile",
    "numpy.searchsorted", "numpy.outer", "numpy.sin", "numpy.cos", "numpy.pi",
    "scipy.stats.norm.cdf", "scipy.stats.norm.pdf", "scipy.stats.norm.sf",
    "scipy.stats.norm.logcdf",
    "scipy.linalg.cho_solve", "scipy.linalg.solve_triangular", "scipy.linalg.cholesky",
    "scipy.stats.uniform", "scipy.stats.randint", "scipy.stats.rv_discrete",
    "scipy.stats.rankdata", "scipy.spatial.distance.pdist",
    "sklearn.base.clone", "sklearn.base.is_regressor", "sklearn.utils.check_array",
    "sklearn.utils.check_random_state", "scipy.optimize.minimize",
    "scipy.optimize.fmin_l_bfgs_b", "joblib.Parallel", "joblib.delayed",
    "joblib.dump", "joblib.load", "time.time", "numpy.clip",
    "sklearn.multioutput.MultiOutputRegressor",
    "sklearn.ensemble.GradientBoostingRegressor",
    "scipy.optimize.OptimizeResult"
}


# leading parameters of functions of other packages, so that a keyword and a
# position say the same
OUTSIDE = {
    "scipy.optimize.minimize": ["fun", "x0", "args"],
    "scipy.optimize.fmin_l_bfgs_b": ["func", "x0", "fprime", "args"],
    "joblib.dump": ["value", "filename", "compress", "protocol"],
    "joblib.load": ["filename", "mmap_mode"],
    "scipy.linalg.cho_solve": ["c_and_lower", "b", "overwrite_b"],
    "scipy.linalg.solve_triangular": ["a", "b", "trans", "lower"],
    "scipy.linalg.cholesky": ["a", "lower", "overwrite_a"],
    "scipy.spatial.distance.pdist": ["X", "metric"],
    "scipy.stats.randint": ["low", "high"],
    "scipy.stats.uniform": ["loc", "scale"],
    "sklearn.base.clone": ["estimator"],
    "sklearn.utils.check_random_state": ["seed"],
    "numpy.percentile": ["a", "q"],
    "numpy.corrcoef": ["x", "y"],
    "numpy.diff": ["a", "n", "axis"],
    "numpy.prod": ["a", "axis"],
    "numpy.cumsum": ["a", "axis"],
    "numpy.unique": ["ar"],
    "numpy.searchsorted": ["a", "v", "side"],
    "numpy.outer": ["a", "b"],
    "numpy.average": ["a", "axis", "weights"],
    "numpy.nanmin": ["a", "axis"],
    "sklearn.multioutput.MultiOutputRegressor": ["estimator"],
    "joblib.Parallel": ["n_jobs"],
}


for _n, _s in {
    "ConstantKernel": ["constant_value", "constant_value_bounds"],
    "WhiteKernel": ["noise_level", "noise_level_bounds"],
    "RBF": ["length_scale", "length_scale_bounds"],
    "Matern": ["length_scale", "length_scale_bounds", "nu"],
    "RationalQuadratic": ["length_scale", "alpha", "length_scale_bounds", "alpha_bounds"],
    "ExpSineSquared": ["length_scale", "periodicity", "length_scale_bounds", "periodicity_bounds"],
    "DotProduct": ["sigma_0", "sigma_0_bounds"],
    "Exponentiation": ["kernel", "exponent"],
    "Sum": ["k1", "k2"], "Product": ["k1", "k2"],
}.items():
    OUTSIDE["skopt.learning.gaussian_process.kernels." + _n] = _s
    OUTSIDE["sklearn.gaussian_process.kernels." + _n] = _s


def outside(name, names):
    if name in N:
        return

    @reg(name)
    def _(a, k):
        d = dict(k)
        out = list(a)
        for n in names[len(a):]:
            if n not in d:
                break
            out.append(d.pop(n))
        if len(out) > len(a) and not any(x.op == "star" for x in a) and None not in d:
            return mk("call", glob(name), tuple(out), tuple((n, v) for n, v in k if n in d))


@reg("scipy.spatial.distance.pdist")
def _(a, k):
    a2 = list(a) + [v for n, v in k if n == "metric"]
    b = [arr(a2[0])] + a2[1:] if a2 else a2
    if len(b) == 2 and b[1] is const("euclidean"):
        b = b[:1]
    if b != list(a):
        return mk("call", glob("scipy.spatial.distance.pdist"), tuple(b), tuple((n, v) for n, v in k if n != "metric"))


@reg("numpy.identity")
def _(a, k):
    return call(glob("numpy.eye"), a, k)


OUTSIDE.pop("scipy.spatial.distance.pdist")
for _n, _s in OUTSIDE.items():
    outside(_n, _s)
