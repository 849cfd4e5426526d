"""Obligations of one property: observable slices of public functions, decided
by comparing value graphs of the tree under analysis with the reference."""
import ast
import sys

from .loader import Program, AnchorLost
from .ev import summarize, leaves, Ev, PURE_METHODS
from .cmp import NONNULL, SOMEVALUES, compare, HOLD, BROKEN, UNKNOWN, Diff, Facts, Cmp, Budget, strip_coerce, cut, vectorised
from .baseline import PUBLIC_OPAQUE, PURE_INTERNAL
from .inst import instance, iterates, definite
from .terms import *
from . import terms as _t

sys.setrecursionlimit(30000)


def self_fields(s):
    out = set()
    for o in leaves(s.out):
        for (k, n) in o[-1].attrs:
            if isinstance(k, tuple) and k[0] == "p":
                out.add((k[1], n))
        for k in o[-1].heap:
            if k[0] == "a" and k[1][0] == "p":
                v = s.field_of(o[-1], k[1][1], k[2])
                if v is not None:
                    out.add((k[1][1], k[2]))
    return out


def slice_term(s, sl, ref=False):
    k = sl[0]
    if k == "ret":
        return s.ret(sl[1:])
    if k == "raises":
        return s.raises(True)
    if k == "events":
        return s.events()
    if k == "param":
        return s.param_exit(sl[1])
    if k == "field":
        # nobody sees the object of a constructor that raised
        return s.field(sl[1], sl[2], not (ref and s.func.node.name == "__init__" and sl[1] == "self"))
    raise ValueError(sl)


def own_params(r):
    """the parameters that are objects of the caller (not collected arguments)"""
    g = r.func.node.args
    return [p for p in r.params if p not in {x.arg for x in (g.vararg, g.kwarg) if x}]


def all_slices(s, r):
    out = [("ret",), ("raises",), ("events",)]
    out += [("param", p) for p in own_params(r)]
    out += [("field",) + f for f in sorted(self_fields(s) | self_fields(r))]
    return out


def expand(spec, s, r):
    """slice names of the property table -> slices"""
    out = []
    for x in spec:
        if x == "*":
            out += expand(["ret", "raises", "events", "self", "params"], s, r)
        elif x in ("ret", "raises", "events"):
            out.append((x,))
        elif x == "self":
            fs = sorted({f for f in self_fields(s) | self_fields(r) if f[0] == "self"})
            out += [("field",) + f for f in fs]
        elif x.startswith("self."):
            out.append(("field", "self", x[5:]))
        elif x == "params":
            out += [("param", p) for p in own_params(r) if p != "self"]
        elif x.startswith("ret."):
            out.append(("ret",) + tuple(int(k) if k.isdigit() else k for k in x[4:].split(".")))
        elif x in ("sig", "own"):
            pass
        else:
            raise ValueError(x)
    seen, res = set(), []
    for o in out:
        if o not in seen:
            seen.add(o)
            res.append(o)
    return res


def mask(t, names, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = t
    if t.op == "call":
        f = t.a[0]
        nm = f.a[0] if f.op == "glob" else f.a[1] if f.op in ("meth", "supermeth") else None
        if nm in names:
            r = sym("any:" + nm)
    elif t.op == "after" and t.a[0] in names:
        r = mask(t.a[1], names, memo)
    if r is t and t.a and t.op not in _t.LEAFOPS:
        a = _mm(t.a, names, memo)
        if a is not t.a:
            r = mk(t.op, *a) if t.op in _t.BINDERS else _t.rebuild(t, a)
    memo[t] = r
    return r


def _mm(a, names, memo):
    out, ch = [], False
    for x in a:
        if isinstance(x, T):
            y = mask(x, names, memo)
        elif isinstance(x, tuple):
            y = _mm(x, names, memo)
        else:
            y = x
        ch = ch or y is not x
        out.append(y)
    return tuple(out) if ch else a


def assumed_pure(f):
    n = f.node.name
    return f.qual in PURE_INTERNAL or f.cls is not None and n in PURE_METHODS and n != "copy"


class Missing(Exception):
    """the class is there, but no longer defines the method"""


def resolve(prog, qual):
    """-> (Func, class of self or None)"""
    setter = qual.endswith("@set")
    q = qual[:-4] if setter else qual
    head, name = q.rsplit(".", 1)
    c = prog.classes.get(prog.canon(head))
    if c is not None:
        f = prog.find_method(c, name, setter)
        if f is None:
            raise Missing(qual)
        return f, c
    f = prog.funcs.get(prog.canon(q))
    if f is None:
        raise AnchorLost(qual)
    return f, None


def signature(prog, f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = {}
    for n, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[n] = e
    for x, e in zip(a.kwonlyargs, a.kw_defaults):
        if e is not None:
            d[x.arg] = e
    return pos, [x.arg for x in a.kwonlyargs], d, a.vararg is not None, a.kwarg is not None


def default_term(prog, f, e):
    ev = Ev(prog)
    try:
        return ev.eval_in(f.module, e)
    except Exception:
        return None


def sig_diff(A, fa, R, fr):
    """[(verdict, text)] for the call interface"""
    pa, ka, da, va, wa = signature(A, fa)
    pr, kr, dr, vr, wr = signature(R, fr)
    out = []
    allA = pa + ka
    for i, n in enumerate(pr):
        if n not in allA and not (wa or va):
            out.append((BROKEN, "parameter %s is gone" % n))
        elif n not in allA:
            out.append((UNKNOWN, "parameter %s is taken from a catch-all" % n))
        elif (n not in pa or pa.index(n) != i) and not (n == "self"):
            out.append((BROKEN, "parameter %s moved from position %d" % (n, i)))
    for n in kr:
        if n not in allA and not wa:
            out.append((BROKEN, "parameter %s is gone" % n))
    for n in allA:
        if n not in pr + kr and n not in da:
            out.append((BROKEN, "parameter %s is new and has no default" % n))
    for n in pr + kr:
        if n not in allA:
            continue
        if (n in da) != (n in dr):
            if n in dr:
                out.append((BROKEN, "parameter %s lost its default" % n))
            else:
                pass            # a required parameter that became optional
            continue
        if n in dr:
            x, y = default_term(A, fa, da[n]), default_term(R, fr, dr[n])
            if x is None or y is None:
                if ast.unparse(da[n]) != ast.unparse(dr[n]):
                    out.append((UNKNOWN, "default of %s is written differently" % n))
            elif x is not y:
                v, ds, _ = compare(x, y)
                if v != HOLD:
                    out.append((v, "default of %s is %s instead of %s" % (n, show(x)[:80], show(y)[:80])))
    return out


# ------------------------------------------------------------------ ownership
def has_fresh(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = t.op == "fresh" or any(has_fresh(k) for k in kids(t))
    return r


_unf = {}


def unfresh(t):
    """the value without the marks of copies and container conversions"""
    r = _unf.get(t)
    if r is None:
        x = t
        if has_fresh(t):
            x = t.a[1] if t.op == "fresh" else None
            if x is None:
                m = {}

                def sm(a):
                    return tuple(unfresh(k) if isinstance(k, T) else sm(k) if isinstance(k, tuple) else k for k in a)
                x = mk(t.op, *sm(t.a)) if t.op in _t.BINDERS else _t.rebuild(t, sm(t.a))
            x = unfresh(x) if has_fresh(x) else x
        r = _unf[t] = strip_coerce(x)
    return r


def owner(t, path=0):
    """own: made here; shared: reachable from an argument or from self"""
    if t.op == "fresh":
        return "own" if t.a[0].a[1] == "deep" or not path else owner(t.a[1], path)
    if t.op in ("attr", "sub"):
        return owner(t.a[0], path + 1)
    if t.op in ("obj", "after", "setitem", "dset", "ddel"):
        return owner(t.a[0] if t.op != "after" else t.a[1], path)
    if t.op in ("sym", "glob", "idx", "bv", "tmp", "res"):
        return "shared"
    if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] in ("asarray", "ravel", "reshape", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze") and t.a[1]:
        return owner(t.a[1][0], path)
    return "other"


def escapes(where, sl):
    """the place the difference was found at holds the object itself"""
    if sl[0] == "events" and where.count("argument") == 1:
        where = where.replace("argument", "")
    return not any(w in where for w in ("condition", "range of iteration", "argument", "loop", "filter"))


class Obligation(object):
    __slots__ = ("target", "slice", "verdict", "where", "text", "nodes", "mode")

    def __init__(self, target, sl, verdict, where="", text="", nodes=0, mode=""):
        self.target, self.slice, self.verdict = target, sl, verdict
        self.where, self.text, self.nodes, self.mode = where, text, nodes, mode

    def key(self):
        return "%s [%s]" % (self.target, self.slice)


class Pair(object):
    def __init__(self, actual, ref):
        self.A, self.R = actual, ref
        self.memo = {}
        self.analysed = set()

    def summ(self, prog, q, inline=(), own=False):
        key = (prog is self.A, q, inline, own)
        r = self.memo.get(key)
        if r is None:
            f, c = resolve(prog, q)
            r = summarize(prog, f, selfcls=c, inline=inline, own=own)
            self.memo[key] = r
        return r

    def decide(self, q, spec, masked=()):
        """obligations of one target"""
        out = []
        try:
            fr, cr = resolve(self.R, q)
        except Missing:
            raise AnchorLost("reference lacks " + q)
        try:
            fa, ca = resolve(self.A, q)
        except Missing:
            c = self.A.classes[self.A.canon(q.rsplit(".", 1)[0])]
            return [Obligation(q, "defined", BROKEN, "%s:%d" % (c.module.rel, c.node.lineno),
                               "the class no longer defines %s" % q.rsplit(".", 1)[1])]
        if "sig" in spec or "*" in spec:
            ds = sig_diff(self.A, fa, self.R, fr)
            v = BROKEN if any(d[0] == BROKEN for d in ds) else UNKNOWN if ds else HOLD
            out.append(Obligation(q, "call interface", v, fa.loc, "; ".join(d[1] for d in ds)))
        a, r = self.summ(self.A, q), self.summ(self.R, q)
        self.analysed |= a.ev.analysed
        masked = frozenset(masked)
        if any(x == "ret" or x.startswith("ret.") for x in spec) and assumed_pure(fr):
            # callers are decided on the assumption that this has no effects
            spec = list(spec) + ["events", "params"] + (["self"] if cr is not None else [])
        for sl in expand(spec, a, r):
            out.append(self.one(q, sl, fa, a, r, masked))
        if {"*", "self", "params", "events", "raises"} & set(spec) and fr.node.name != "__init__":
            out.append(self.undone(q, fa, a, r))
        if "own" in spec:
            out += self.ownership(q, fa)
        return out

    def undone(self, q, fa, a, r):
        """an exception out of a call leaves nothing changed that the reference
        leaves alone, or has put back by then"""
        x, y = a.left_behind(), r.left_behind()
        known = self.R.attribute_names()
        for loc in sorted(x):
            if loc not in y and x[loc] is not None and loc[1] in known:
                return Obligation(q, "exceptional exits", BROKEN, fa.loc,
                                  "%s.%s stays changed when %s raises" % (loc[0], loc[1], cut(show(x[loc].a[0]), 160)))
        for f, obj, name in sorted((k for k in a.ev.leftat if k[0]), key=str):
            if (f, obj, name) not in r.ev.leftat and f in r.ev.heads and name in known and self.checker(f):
                return Obligation(q, "exceptional exits", BROKEN, fa.loc, "%s.%s is already changed when %s rejects the call" % (obj, name, f))
        locs = sorted(l for l in a.changed_when_raising() if l[1] in known)
        n = 0
        if locs:
            x, y = a.raised_with(locs), r.raised_with(locs)
            for loc in locs:
                v, ds, k = compare(x[loc], y[loc])
                n += k
                for d in ds:
                    if d.kind == BROKEN and d.a is TRUE and d.s is FALSE:
                        return Obligation(q, "exceptional exits", BROKEN, fa.loc, "%s.%s is changed, and then the call is "
                                          "rejected: %s" % (loc[0], loc[1], d.text(260)), n)
        return Obligation(q, "exceptional exits", HOLD, fa.loc, "", n)

    def checker(self, f):
        """a function that returns nothing and rejects some of its inputs"""
        fn = self.R.funcs.get(f)
        if fn is None:
            return False
        ns = list(ast.walk(fn.node))
        return any(isinstance(n, ast.Raise) for n in ns) and not any(isinstance(n, ast.Return) and n.value is not None for n in ns)

    def ownership(self, q, fa):
        """what leaves the function as a new object in the reference does not
        leave it as an object somebody else holds"""
        out = []
        a, r = self.summ(self.A, q, own=True), self.summ(self.R, q, own=True)
        for sl in all_slices(a, r):
            if sl[0] == "raises" or sl[0] == "param" and sl[1] not in a.params:
                continue
            x, y = self.terms(a, r, sl, ())
            if not has_fresh(y):
                continue
            c = Cmp(budget=30000, maxdiff=200)
            name = "own " + ".".join(str(k) for k in sl)
            v, txt = HOLD, ""
            try:
                if x is not y and not c.run(x, y):
                    for d in c.diffs:
                        if d.a.op == d.s.op == "fresh" and (d.a.a[0].a[1], d.s.a[0].a[1]) == ("shallow", "deep") \
                                and "argument" not in d.where and unfresh(d.a) is unfresh(d.s):
                            v, txt = BROKEN, "%s: changes parts of %s through a shallow copy, the property needs a deep one" % (
                                d.where or "value", cut(show(d.a.a[1]), 200))
                            break
                        if escapes(d.where, sl) and unfresh(d.a) is unfresh(d.s) and owner(d.s) == "own" and owner(d.a) == "shared":
                            v, txt = BROKEN, "%s: hands out %s itself, the property needs a copy" % (d.where or "value", cut(show(d.a), 200))
                            break
            except (Budget, RecursionError):
                v, txt = UNKNOWN, "comparison out of budget"
            out.append(Obligation(q, name, v, fa.loc, txt, c.n))
        return out

    def terms(self, a, r, sl, masked):
        NONNULL.clear()
        NONNULL.update(self.A.nonnull & self.R.nonnull)
        SOMEVALUES.clear()
        SOMEVALUES.update(self.A.somevalues & self.R.somevalues)
        x, y = slice_term(a, sl), slice_term(r, sl, True)
        if masked and x is not y:
            x, y = mask(x, masked, {}), mask(y, masked, {})
        return x, y

    def vetoed(self, pairs, ds):
        """the difference is one of iteration, and small inputs do not show it"""
        for d in ds:
            if d.kind == BROKEN and not (iterates(d.a) or iterates(d.s) or any(iterates(p) for p in d.facts.d)):
                return False
        for x, y in pairs:
            ok = True
            for k, sizes in ((2, None), (1, None), (3, None), (0, {}), (1, {})):
                i, j = instance(x, k, sizes, y), instance(y, k, sizes, x)
                if i is None or j is None or i is not j and compare(i, j, budget=8000)[0] != HOLD:
                    ok = False
                    break
            if ok:
                return True
        return False

    def one(self, q, sl, fa, a, r, masked):
        key = ("one", q, sl, masked)
        if key not in self.memo:
            self.memo[key] = self._one(q, sl, fa, a, r, masked)
        return self.memo[key]

    def _one(self, q, sl, fa, a, r, masked):
        name = ".".join(str(k) for k in sl)
        if sl[0] == "param" and sl[1] not in a.params:
            return Obligation(q, name, UNKNOWN, fa.loc, "no parameter " + sl[1])
        x, y = self.terms(a, r, sl, masked)
        v, ds, n = compare(x, y)
        if v == HOLD:
            return Obligation(q, name, HOLD, fa.loc, nodes=n)
        # a callee may have been written out or replaced: look into all of them
        a2 = self.summ(self.A, q, tuple(sorted(PUBLIC_OPAQUE)))
        r2 = self.summ(self.R, q, tuple(sorted(PUBLIC_OPAQUE)))
        x2, y2 = self.terms(a2, r2, sl, masked)
        v2, ds2, n2 = compare(x2, y2)
        if v2 == HOLD:
            return Obligation(q, name, HOLD, fa.loc, nodes=n + n2, mode="callees expanded")
        d = [d for d in ds if d.kind == BROKEN] or ds
        t = d[0].text(260) if d else "comparison out of budget"
        if v == BROKEN and self.vetoed(((x, y), (x2, y2)), ds):
            v = UNKNOWN
            d = []
            t = "differs in the way it iterates, and agrees on inputs of 1, 2 and 3 elements"
        elif v == UNKNOWN:
            for u, w in ((x, y), (x2, y2)):
                if not (iterates(u) or iterates(w)):
                    continue
                for k in (2, 1, 3):
                    i, j = instance(u, k, None, w), instance(w, k, None, u)
                    if i is None or j is None:
                        continue
                    v3, ds3, n3 = compare(i, j, budget=8000)
                    n += n3
                    vec = vectorised(u, w)
                    b = [e for e in ds3 if e.kind == BROKEN and definite(e) and not (
                        vec and any(mentions(z, vec) for z in [e.a, e.s] + list(e.facts.d)))]
                    if b:
                        return Obligation(q, name, BROKEN, fa.loc, "with %d element%s: %s" % (k, "s" * (k > 1), b[0].text(240)), n)
        if v == UNKNOWN and d:
            t += " (%s)" % d[0].why
        return Obligation(q, name, v, fa.loc, t, n + n2)
