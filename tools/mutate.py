"""Mutants of the package, to measure what the comparison reports (not part of
any check).  usage: mutate.py [N] [filter] [seed]"""
import ast, copy, os, random, sys, collections, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.equiv import *

REPO = "/repo"


def muts(fn, rng):
    """yield (description, mutated function node)"""
    out = []
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk_(desc, f, i=i):
            out.append((desc, i, f))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                   ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In]}[op]
            for a in alt:
                mk_("cmp %s->%s" % (op.__name__, a.__name__), lambda m, a=a: m.ops.__setitem__(0, a()))
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}.get(type(n.op))
            if alt:
                mk_("binop", lambda m, a=alt: setattr(m, "op", a()))
        elif isinstance(n, ast.BoolOp):
            alt = ast.Or if isinstance(n.op, ast.And) else ast.And
            mk_("boolop", lambda m, a=alt: setattr(m, "op", a()))
            for k in range(len(n.values)):
                mk_("drop operand %d" % k, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, m.values[1 - k]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,)):
            mk_("unary", lambda m: setattr(m, "op", ast.UAdd()))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                mk_("const flip", lambda m: setattr(m, "value", not m.value))
            elif n.value is None:
                pass
            elif isinstance(n.value, (int, float)):
                mk_("const+1", lambda m: setattr(m, "value", m.value + 1))
        elif isinstance(n, ast.If):
            mk_("if negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
            if n.orelse:
                mk_("drop else", lambda m: setattr(m, "orelse", []))
        elif isinstance(n, ast.Call):
            if n.keywords:
                for k in range(len(n.keywords)):
                    if n.keywords[k].arg:
                        mk_("drop kw %s" % n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k))
            if len(n.args) == 2:
                mk_("swap args", lambda m: m.args.reverse())
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            alt = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor",
                   "all": "any", "any": "all", "append": "extend", "log": "log10", "log10": "log", "mean": "median"}.get(nm)
            if alt:
                mk_("func %s->%s" % (nm, alt), lambda m, a=alt: setattr(m.func, "id" if isinstance(m.func, ast.Name) else "attr", a))
            if nm in ("copy", "deepcopy", "clone", "list", "asarray", "array", "abs", "float", "sorted") and n.args:
                mk_("unwrap %s" % nm, None)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            mk_("index 0", lambda m: setattr(m, "slice", ast.Constant(0)))
        if hasattr(n, "body") and isinstance(n.body, list):
            for fld in ("body", "orelse", "finalbody"):
                for k, s in enumerate(getattr(n, fld, []) or []):
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        continue
                    mk_("delete %s stmt: %s" % (fld, ast.unparse(s).split("\n")[0][:60]), lambda m, k=k, fld=fld: getattr(m, fld).__setitem__(k, ast.Pass()))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            names = sorted({x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args} - {n.id, "self"})
            names = [x for x in names if x != n.id]
            if names:
                alt = rng.choice(names)
                mk_("name %s->%s" % (n.id, alt), lambda m, a=alt: setattr(m, "id", a))
    return out


def apply(fn, i, f, desc):
    m = copy.deepcopy(fn)
    nodes = list(ast.walk(m))
    if f is None:
        tgt = nodes[i]

        class U(ast.NodeTransformer):
            def visit_Call(self, x):
                self.generic_visit(x)
                return x.args[0] if x is tgt else x
        m = U().visit(m)
    else:
        f(nodes[i])
    return ast.fix_missing_locations(m)


def mutants(n, flt, seed):
    rng = random.Random(seed)
    P = Program(REPO)
    pool = []
    for q, f in sorted(P.funcs.items()):
        if flt and not any(x in q for x in flt):
            continue
        if "." in q and f.cls is None and False:
            continue
        for d, i, fn in muts(f.node, rng):
            pool.append((q, d, i, fn))
    rng.shuffle(pool)
    out = []
    for q, d, i, fn in pool[:n]:
        f = P.funcs[q]
        try:
            node = apply(f.node, i, fn, d)
        except Exception:
            continue
        lines = f.module.src.split("\n")
        start = min([f.node.lineno] + [x.lineno for x in f.node.decorator_list]) - 1
        ind = " " * f.node.col_offset
        body = "\n".join(ind + l for l in ast.unparse(node).split("\n"))
        src = "\n".join(lines[:start] + [body] + lines[f.node.end_lineno:])
        try:
            ast.parse(src)
        except SyntaxError:
            continue
        out.append((q, d, f.module.rel, src, nodeline(f.node, i), body))
    return out


def nodeline(fn, i):
    n = list(ast.walk(fn))[i]
    return getattr(n, "lineno", fn.lineno)


_R = None


def judge(m):
    global _R
    if _R is None:
        _R = Program("/verif/ref")
    q, d, rel, src, line, body = m
    A = Program(REPO, overlay={rel: src})
    P = Pair(A, _R)
    res = HOLD
    info = []
    mod = A.funcs[q].module.name
    for fq in sorted(_R.funcs):
        if fq != q and not q.rsplit(".", 1)[-1].startswith("_"):
            continue
        if fq != q and _R.funcs[fq].module.name != mod:
            continue
        a, r = P.summ(A, fq), P.summ(_R, fq)
        for sl in all_slices(a, r):
            x, y = slice_term(a, sl), slice_term(r, sl)
            if x is y:
                continue
            v, ds, n = compare(x, y)
            if v == BROKEN:
                return (q, d, line, BROKEN, "%s %s %s" % (fq, sl, ds[0].text(120)[:300]))
            if v == UNKNOWN:
                res = UNKNOWN
                info.append("%s %s %s" % (fq, sl, [(dd.why, dd.text(100)[:250]) for dd in ds[:2]]))
    return (q, d, line, res, "; ".join(info[:2]))


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    flt = [x for x in sys.argv[2].split(",") if x] if len(sys.argv) > 2 else []
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    ms = mutants(n, flt, seed)
    c = collections.Counter()
    with mp.Pool(8) as pool:
        for q, d, line, v, info in pool.imap_unordered(judge, ms, chunksize=4):
            c[v] += 1
            if v != BROKEN:
                print(v, q.replace("skopt.", ""), line, d, "|", info[:420])
    print(c)
