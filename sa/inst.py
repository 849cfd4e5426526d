"""Instances of a fixed size.

Two spellings of an iteration that share no closed form are compared on the
inputs of 1, 2 and 3 elements: every length of an input is replaced by that
number, and loops, comprehensions and searches over it are written out.  Only a
difference counts: it is reached by inputs of that size; agreement leaves the
question open for longer ones."""
from .terms import *
from .terms import _rename_binder, BINDERS
from . import terms as _t


class TooBig(Exception):
    pass


LIMIT = 40000
GROWTH = 60000


def free_len(x):
    """len(x) is the caller's choice"""
    while x.op in ("attr",) or x.op == "call" and x.a[0].op == "glob" and x.a[0].a[0] in ("list", "asarray", "dictkeys") and len(x.a[1]) == 1:
        x = x.a[0] if x.op == "attr" else x.a[1][0]
    return x.op == "sym" or x.op == "call" and x.a[0].op == "meth" and x.a[0].a[1] == "get_params"


class Inst(object):
    def __init__(self, k, sizes=None):
        self.k = k
        self.sizes = sizes              # inputs of different sizes
        self.memo = {}
        self.sized = set()
        self.n = 0

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.n += 1
            if self.n > LIMIT:
                raise TooBig
            r = self.memo[t] = self.go(t)
        return r

    def size(self, x):
        if self.sizes is None:
            return self.k
        return self.sizes.setdefault(show(x), 1 + (self.k + len(self.sizes)) % 3)

    def many(self, a):
        out, ch = [], False
        for x in a:
            y = self(x) if isinstance(x, T) else self.many(x) if isinstance(x, tuple) else x
            ch = ch or y is not x
            out.append(y)
        return tuple(out) if ch else a

    def dom(self, t):
        d = self(t)
        return int(d.a[0]) if d.op == "num" and d.a[0].denominator == 1 and d.a[0] <= 8 else None

    def go(self, t):
        op = t.op
        if op == "truth" and t.a[0] in self.sized:
            return TRUE if self.size(t.a[0]) else FALSE
        if not t.a or op in _t.LEAFOPS:
            return t
        if op == "call" and t.a[0].op == "glob" and t.a[0].a[0] == "len" and len(t.a[1]) == 1 and free_len(t.a[1][0]):
            return num(self.size(t.a[1][0]))
        if op in BINDERS and op != "lam":
            n = self.dom(t.a[0])
            if n is not None:
                n = max(n, 0)
                if op == "loop":
                    return self.loop(t, n)
                bv = mk("bv", t.a[-1])
                at = lambda w, i: self(subst(t.a[w], {bv: num(i)}))
                if op == "map":
                    return list_([at(1, i) for i in range(n)])
                if op == "fmap":
                    return concat([list_([])] + [ite(truth(at(1, i)), list_([at(2, i)]), list_([])) for i in range(n)])
                if op == "any":
                    r = FALSE
                    for i in range(n):
                        r = or_(r, truth(at(1, i)))
                    return r
                if op == "first":
                    r = num(n)
                    for i in reversed(range(n)):
                        r = ite(truth(at(1, i)), num(i), r)
                    return r
            a, m = _rename_binder(t)
            return _t._close(op, self.many(a), m)
        if op == "lam":
            return t
        a = self.many(t.a)
        if op == "flat" and a[0].op == "list":
            return concat([list_([])] + [aslist(x) for x in a[0].a[0]])
        if op == "setmap" and a[1].op == "list" and all(x.op == "tuple" for x in a[1].a[0]):
            r = a[0]
            for x in a[1].a[0]:
                r = mk("setitem", r, x.a[0][0], x.a[0][1])
            return r
        if op == "dictof" and a[0].op == "list" and all(x.op == "tuple" for x in a[0].a[0]):
            r = mk("dict", ())
            for x in a[0].a[0]:
                r = dset(r, x.a[0][0], x.a[0][1])
            return r
        if op == "dupd" and a[1].op in ("dict", "dset"):
            ps, d = [], a[1]
            while d.op == "dset":
                ps.append((d.a[1], d.a[2]))
                d = d.a[0]
            if d.op == "dict":
                r = a[0]
                for k, v in list(d.a[0]) + ps[::-1]:
                    r = dset(r, k, v)
                return r
        if op == "evloop" and a[0].op == "list":
            return mk("evseq", tuple(y for x in a[0].a[0] for y in (x.a[0] if x.op == "evseq" else (x,))))
        if op == "evseq":
            return mk("evseq", tuple(y for x in a[0] for y in (x.a[0] if x.op == "evseq" else (x,))))
        r = t if a is t.a else _t.rebuild(t, a)
        if r.op == "call" and r.a[0].op == "glob" and len(r.a[1]) == 1 and not r.a[2]:
            f, x = r.a[0].a[0], r.a[1][0]
            if f in ("list", "tuple") and free_len(x):
                return list_([sub(x, num(i)) for i in range(self.size(x))])
            if x.op in ("list", "tuple"):
                if f == "sum" and x.a[0]:
                    return add(*x.a[0])
                if f == "len":
                    return num(len(x.a[0]))
                if f == "range":
                    pass
            if f == "range" and x.op == "num":
                return list_([num(i) for i in range(max(0, int(x.a[0])))])
        if r.op == "sub" and r.a[1].op == "num" and r.a[1].a[0] < 0 and free_len(r.a[0]):
            return sub(r.a[0], num(self.size(r.a[0]) + r.a[1].a[0]))
        return r

    def loop(self, t, n):
        dom, inits, upds, stop, out, lvl = t.a
        bv = mk("bv", lvl)
        slots = [mk("bv", (lvl, j)) for j in range(len(inits))]
        cur = [self(x) for x in inits]
        halted = FALSE
        for i in range(n):
            m = {bv: num(i)}
            m.update(zip(slots, cur))
            new = [self(subst(u, m)) for u in upds]
            st = self(subst(stop, m))
            cur = [ite(halted, c, w) for c, w in zip(cur, new)]
            halted = or_(halted, truth(st))
        return cur[out]


_sz = {}


def sized(t):
    """inputs whose length t asks for"""
    r = _sz.get(t)
    if r is None:
        r = set()
        if t.op == "call" and t.a[0].op == "glob" and t.a[0].a[0] == "len" and len(t.a[1]) == 1 and free_len(t.a[1][0]):
            r.add(t.a[1][0])
        for k in kids(t):
            r |= sized(k)
        r = _sz[t] = frozenset(r)
    return r


def instance(t, k, sizes=None, beside=None):
    """t for inputs of k elements; None when it grows too large"""
    i = Inst(k, sizes)
    i.sized = sized(t) if beside is None else sized(t) | sized(beside)
    cap, _t.CAP[0] = _t.CAP[0], len(_t._all) + GROWTH
    try:
        return i(t)
    except (TooBig, _t.Blowup, RecursionError):
        return None
    finally:
        _t.CAP[0] = cap


ITER = ("map", "fmap", "any", "first", "loop", "flat", "setmap", "dictof")
_it = {}


def iterates(t):
    r = _it.get(t)
    if r is None:
        r = _it[t] = t.op in ITER or any(iterates(x) for x in kids(t))
    return r


_sc = {}
ARRAYISH = ("slice",)


def plain(t):
    """no operation that treats a whole sequence as one number"""
    r = _sc.get(t)
    if r is None:
        r = t.op not in ARRAYISH and not iterates(t)
        if r and t.op == "poly":
            r = not any(x.op in ("list", "tuple", "concat") for m, c in t.a[0] for x, e in m)
        if r:
            r = all(plain(x) for x in kids(t))
        _sc[t] = r
    return r


def listy(t):
    return t.op in ("list", "tuple", "concat")


def definite(d):
    a, s = d.a, d.s
    if listy(a) != listy(s) and not (a.op == "const" or s.op == "const"):
        return False
    return plain(a) and plain(s) and all(plain(p) for p in d.facts.d)
