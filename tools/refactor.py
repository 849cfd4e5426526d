"""Behaviour preserving rewrites of the package, to measure false alarms (not
part of any check).  usage: refactor.py [N] [kinds,csv] [filter,csv] [seed]"""
import ast, copy, os, random, sys, collections, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(30000)
from sa.equiv import *
REPO = "/repo"
KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def blocks(fn):
    for n in ast.walk(fn):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, fld, b


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def locals_of(fn):
    s = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s


def params_of(fn):
    a = fn.args
    return {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def uses_locals_fn(fn):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval") for x in ast.walk(fn))


# every kind: f(fn, rng) -> True when it changed something (in place); may also
# return ("helper", node) to add a module function before
@kind
def rename(fn, rng):
    ls = locals_of(fn) - params_of(fn)
    nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
    for n in nested:
        ls -= params_of(n)
        if isinstance(n, ast.FunctionDef):
            ls.discard(n.name)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            ls -= set(n.names)
    if not ls or uses_locals_fn(fn):
        return False
    order = sorted(ls)
    new = list(order)
    rng.shuffle(new)
    m = {o: "v%d_%s" % (i, rng.choice("abcxyz")) for i, o in enumerate(new)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
        if isinstance(n, ast.ExceptHandler) and n.name in m:
            n.name = m[n.name]
    return True


@kind
def noop(fn, rng):
    bs = [b for _, _, b in blocks(fn)]
    b = rng.choice(bs)
    s = rng.choice(["pass", "_unused_marker = None", "0", "_tmp_marker = (1, 2)", "if False:\n    _never = 1", "str('x')"])
    k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    b.insert(rng.randint(k, len(b) - (1 if isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue)) else 0) if len(b) > k else k), ast.parse(s).body[0])
    return not uses_locals_fn(fn)


@kind
def invert_if(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse]
    if not c:
        return False
    n = rng.choice(c)
    n.test = neg(n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
        return ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


@kind
def demorgan(fn, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.BoolOp)]
    if not c:
        return False
    n = rng.choice(c)
    op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
    return True


@kind
def swapcmp(fn, rng):
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]
    return True


@kind
def temp(fn, rng):
    """x = f(a, g(b)) -> t = <subexpression evaluated first>; needs evaluation order kept"""
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None and not isinstance(s.value, ast.Constant):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    v = s.value
    # first evaluated call / attribute / subscript argument
    path = []
    if isinstance(v, ast.Call) and v.args and not isinstance(v.args[0], ast.Starred) and isinstance(v.func, (ast.Name, ast.Attribute)) and not has(v.func, ast.Call) \
            and not isinstance(v.args[0], (ast.GeneratorExp,)):
        path = [("args", 0)]
    elif isinstance(v, ast.BinOp):
        path = [("left", None)]
    nm = "tmp_%d" % rng.randint(0, 99)
    if path and rng.random() < .7:
        f, k = path[0]
        if k is None:
            sub = getattr(v, f)
            setattr(v, f, ast.Name(nm, ast.Load()))
        else:
            sub = v.args[k]
            v.args[k] = ast.Name(nm, ast.Load())
    else:
        sub = v
        if isinstance(s, ast.Assign) and isinstance(sub, (ast.Yield,)):
            return False
        s.value = ast.Name(nm, ast.Load())
    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], sub))
    return not uses_locals_fn(fn)


@kind
def comp2loop(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    g = s.value.generators[0]
    nm = "acc_%d" % rng.randint(0, 99)
    # fresh loop variables
    m = {x: x + "_it" for x in names(g.target)}
    for part in [g.target, s.value.elt] + g.ifs:
        for n in ast.walk(part):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
    app = ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [s.value.elt], []))
    body = [app]
    for t in reversed(g.ifs):
        body = [ast.If(t, body, [])]
    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), s]
    s.value = ast.Name(nm, ast.Load())
    return not uses_locals_fn(fn)


@kind
def loop2comp(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1:
                x = l.body[0]
                ifs = []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    ifs.append(x.test)
                    x = x.body[0]
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" \
                        and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == s.targets[0].id and s.targets[0].id not in names(x.value.args[0]):
                    c.append((b, i, s, l, ifs, x.value.args[0]))
    if not c:
        return False
    b, i, s, l, ifs, e = rng.choice(c)
    s.value = ast.ListComp(e, [ast.comprehension(l.target, l.iter, ifs, 0)])
    del b[i + 1]
    return True


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse)


@kind
def early(fn, rng):
    """if c: ...return / rest  <->  if c: ... else: rest"""
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                c.append((0, b, i, s))
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                c.append((1, b, i, s))
    if not c:
        return False
    k, b, i, s = rng.choice(c)
    if k == 0:
        s.orelse = b[i + 1:]
        del b[i + 1:]
    else:
        b[i + 1:i + 1] = s.orelse
        s.orelse = []
    return True


@kind
def ternary(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (s.body[0], s.orelse[0])) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                c.append((0, b, i, s))
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Return) and x.value for x in (s.body[0], s.orelse[0])):
                c.append((1, b, i, s))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                c.append((2, b, i, s))
    if not c:
        return False
    k, b, i, s = rng.choice(c)
    if k == 0:
        b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    elif k == 1:
        b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    else:
        x = copy.deepcopy(s)
        y = copy.deepcopy(s)
        x.value, y.value = s.value.body, s.value.orelse
        b[i] = ast.If(s.value.test, [x], [y])
    return True


@kind
def nestif(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                c.append((0, s))
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                c.append((1, s))
    if not c:
        return False
    k, s = rng.choice(c)
    if k == 0:
        vs = s.test.values
        inner = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
        s.body = [ast.If(inner, s.body, [])]
        s.test = vs[0]
    else:
        s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
        s.body = s.body[0].body
    return True


PURE_CALLS = {"len", "abs", "min", "max", "float", "int", "str", "list", "tuple", "dict", "isinstance", "range", "sorted", "zip", "enumerate", "hasattr"}


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
                continue
            return False
        if isinstance(n, (ast.Subscript, ast.NamedExpr, ast.Yield, ast.Await, ast.BinOp)) and isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)):
            return False
    return True


@kind
def reorder(fn, rng):
    """swap adjacent independent assignments of pure, non-raising looking expressions"""
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) and pure(x.value)
                   and not has(x.value, ast.Call, ast.Subscript, ast.BinOp) for x in (s, t)):
                ws, wt = ast.dump(s.targets[0]), ast.dump(t.targets[0])
                if ws == wt:
                    continue
                ns, nt = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
                if ns in ast.unparse(t.value) or nt in ast.unparse(s.value):
                    continue
                if isinstance(s.targets[0], ast.Name) and ns in nt.split(".") or isinstance(t.targets[0], ast.Name) and nt in ns.split("."):
                    continue
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


@kind
def enum(fn, rng):
    """for x in xs -> for i, x in enumerate(xs) ; or index loop on a local name"""
    c = [n for n in ast.walk(fn) if isinstance(n, ast.For)]
    if not c:
        return False
    n = rng.choice(c)
    if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and isinstance(n.target, ast.Tuple) and rng.random() < .6 and len(n.iter.args) == 1 \
            and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)):
        i, x = n.target.elts
        src = n.iter.args[0]
        n.target = i
        n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [src], [])], [])
        ld = copy.deepcopy(i)
        ld.ctx = ast.Load()
        n.body.insert(0, ast.Assign([x], ast.Subscript(src, ld, ast.Load())))
        return True
    n.target = ast.Tuple([ast.Name("_pos", ast.Store()), n.target], ast.Store())
    n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
    return not uses_locals_fn(fn)


@kind
def whileloop(fn, rng):
    """for i in range(n): body -> i = 0; while i < n: body; i += 1 (no continue, i not reused)"""
    c = []
    for _, _, b in blocks(fn):
        for k, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 \
                    and isinstance(s.target, ast.Name) and not s.orelse and not has(s, ast.Continue) and isinstance(s.iter.args[0], ast.Name):
                stores = [x for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
                if any(x.id == s.iter.args[0].id for x in stores):
                    continue
                later = [x for t in b[k + 1:] for x in ast.walk(t) if isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Load)]
                if later or sum(x.id == s.target.id for x in stores) > 1:
                    continue
                c.append((b, k, s))
    if not c:
        return False
    b, k, s = rng.choice(c)
    i = s.target.id
    s.body.append(ast.parse("%s += 1" % i).body[0])
    w = ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [s.iter.args[0]]), s.body, [])
    b[k:k + 1] = [ast.parse("%s = 0" % i).body[0], w]
    return True


@kind
def extract_expr(fn, rng):
    """an expression becomes a module level helper"""
    if uses_locals_fn(fn):
        return False
    loc = (locals_of(fn) | params_of(fn))
    nested = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) or (isinstance(n, ast.FunctionDef) and n is not fn):
            for x in ast.walk(n):
                if x is not n:
                    nested.add(id(x))
    c = []
    for par in ast.walk(fn):
        for f, v in ast.iter_fields(par):
            vs = v if isinstance(v, list) else [v]
            for k, e in enumerate(vs):
                if isinstance(e, (ast.Call, ast.BinOp, ast.BoolOp, ast.Compare, ast.ListComp, ast.IfExp)) and id(e) not in nested and isinstance(getattr(e, "ctx", ast.Load()), ast.Load) \
                        and f not in ("decorator_list", "defaults", "kw_defaults") and not has(e, ast.Lambda, ast.NamedExpr, ast.Yield, ast.Starred) \
                        and not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super") and "super" not in names(e) and "__class__" not in names(e):
                    c.append((par, f, k if isinstance(v, list) else None, e))
    if not c:
        return False
    par, f, k, e = rng.choice(c)
    free = sorted(n for n in names(e, ast.Load) if n in loc)
    # names bound by the comprehension itself are not free
    inner = names(e, ast.Store)
    free = [n for n in free if n not in inner]
    h = "_helper_%d" % rng.randint(0, 999)
    call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in free], [])
    if k is None:
        setattr(par, f, call)
    else:
        getattr(par, f)[k] = call
    hd = ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in free], None, [], [], None, []), [ast.Return(e)], [], None)
    if sys.version_info >= (3, 12):
        hd.type_params = []
    return ("helper", hd)


@kind
def extract_stmts(fn, rng):
    """a run of statements becomes a module level helper returning what it assigns"""
    if uses_locals_fn(fn):
        return False
    loc = (locals_of(fn) | params_of(fn))
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for n in ast.walk(fn)):
        return False
    c = []
    for par, fld, b in blocks(fn):
        if isinstance(par, (ast.For, ast.While)) and par is not fn and False:
            continue
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 4) + 1):
                ss = b[i:j]
                if any(has(s, ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Delete, ast.Raise) for s in ss):
                    continue
                if any("super" in names(s) for s in ss):
                    continue
                if isinstance(ss[0], ast.Expr) and isinstance(ss[0].value, ast.Constant):
                    continue
                w = set()
                for s in ss:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                            pass
                    w |= names(s, ast.Store)
                compw = set()
                for s in ss:
                    for x in ast.walk(s):
                        if isinstance(x, ast.comprehension):
                            compw |= names(x.target)
                w -= compw
                # every written name must be definitely assigned at top level
                top = set()
                for s in ss:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            top |= names(t, ast.Store)
                r = set()
                for s in ss:
                    r |= names(s, ast.Load)
                aug = {x.target.id for s in ss for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                live = r | aug
                if not w <= top:
                    continue
                # bound before? only params of fn or names assigned at the top of fn before this block
                c.append((b, i, j, sorted((live & loc) - compw), sorted(w), top))
    if not c:
        return False
    b, i, j, free, w, top = rng.choice(c)
    ss = b[i:j]
    # names first assigned inside are not passed
    seen, need = set(), []
    for s in ss:
        ld = names(s.value if isinstance(s, ast.Assign) else s, ast.Load) | {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        if isinstance(s, ast.Assign):
            for t in s.targets:
                ld |= names(t, ast.Load)
        need += [n for n in sorted(ld) if n in free and n not in seen and n not in need]
        if isinstance(s, ast.Assign):
            for t in s.targets:
                seen |= names(t, ast.Store)
    h = "_part_%d" % rng.randint(0, 999)
    call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(n, ast.Load()) for n in need], [])
    body = list(ss)
    if w:
        ret = ast.Name(w[0], ast.Load()) if len(w) == 1 else ast.Tuple([ast.Name(n, ast.Load()) for n in w], ast.Load())
        body.append(ast.Return(ret))
        tgt = ast.Name(w[0], ast.Store()) if len(w) == 1 else ast.Tuple([ast.Name(n, ast.Store()) for n in w], ast.Store())
        b[i:j] = [ast.Assign([tgt], call)]
    else:
        b[i:j] = [ast.Expr(call)]
    hd = ast.FunctionDef(h, ast.arguments([], [ast.arg(n) for n in need], None, [], [], None, []), body, [], None)
    if sys.version_info >= (3, 12):
        hd.type_params = []
    return ("helper", hd)


@kind
def localattr(fn, rng):
    """self.x read once into a local at the top when never written here"""
    if not fn.args.args or fn.args.args[0].arg != "self" or uses_locals_fn(fn):
        return False
    w = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    calls = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(fn))
    called = {n.func.attr for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"}
    if calls:
        return False
    # only attributes read unconditionally in the first statements
    b = fn.body
    k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    if len(b) <= k:
        return False
    s = b[k]
    head = s.test if isinstance(s, (ast.If, ast.While)) else s.iter if isinstance(s, ast.For) else s
    if isinstance(head, (ast.With, ast.Try, ast.FunctionDef)):
        return False
    if isinstance(head, ast.BoolOp):
        head = head.values[0]
    at = sorted({n.attr for n in ast.walk(head) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load)} - w - called)
    if not at or has(head, ast.ListComp, ast.IfExp, ast.Lambda, ast.GeneratorExp):
        return False
    a = rng.choice(at)

    class U(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self":
                return ast.Name(a + "_local", ast.Load())
            return n
    for i in range(k, len(b)):
        b[i] = U().visit(b[i])
    b.insert(k, ast.parse("%s_local = self.%s" % (a, a)).body[0])
    return True


@kind
def aug(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return True


@kind
def fstring(fn, rng):
    """'...%s...' % x in raise / message context -> format"""
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for k, e in enumerate(vs):
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str) and e.left.value.count("%s") == e.left.value.count("%"):
                    c.append((n, f, k if isinstance(v, list) else None, e))
    if not c:
        return False
    n, f, k, e = rng.choice(c)
    args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
    new = ast.Call(ast.Attribute(ast.Constant(e.left.value.replace("{", "{{").replace("}", "}}").replace("%s", "{}")), "format", ast.Load()), list(args), [])
    if k is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[k] = new
    return True


@kind
def kwpos(fn, rng):
    """nothing resolved here: f(a=x) keyword order shuffled (pure arguments)"""
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg and pure(k.value) for k in n.keywords)]
    if not c:
        return False
    rng.shuffle(rng.choice(c).keywords)
    return True


@kind
def emptylit(fn, rng):
    c = []
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for k, e in enumerate(vs):
                if isinstance(e, ast.List) and not e.elts and isinstance(e.ctx, ast.Load) or isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list") and not e.args and not e.keywords:
                    c.append((n, f, k if isinstance(v, list) else None, e))
    if not c:
        return False
    n, f, k, e = rng.choice(c)
    new = ast.parse("list()" if isinstance(e, ast.List) else "dict()" if isinstance(e, ast.Dict) else "[]" if e.func.id == "list" else "{}").body[0].value
    if k is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[k] = new
    return True


@kind
def tupleassign(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, t)) and s.targets[0].id != t.targets[0].id and s.targets[0].id not in names(t.value):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    s, t = b[i], b[i + 1]
    b[i:i + 2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))]
    return True


@kind
def boolret(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Compare) and len(s.value.ops) == 1:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    if isinstance(s.value.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
        b[i:i + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
        return True
    return False


def subexprs(fn, pred):
    out = []
    for par in ast.walk(fn):
        for f, v in ast.iter_fields(par):
            if f in ("decorator_list",):
                continue
            vs = v if isinstance(v, list) else [v]
            for k, e in enumerate(vs):
                if isinstance(e, ast.expr) and pred(e):
                    out.append((par, f, k if isinstance(v, list) else None, e))
    return out


def put(c, new):
    par, f, k, e = c
    if k is None:
        setattr(par, f, new)
    else:
        getattr(par, f)[k] = new
    return True


def isnp(e, *fs):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "np" and e.func.attr in fs


def E(src):
    return ast.parse(src).body[0].value


@kind
def square(fn, rng):
    c = subexprs(fn, lambda e: isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 2 and pure(e.left))
    if not c:
        return False
    x = rng.choice(c)
    return put(x, ast.BinOp(x[3].left, ast.Mult(), copy.deepcopy(x[3].left)))


@kind
def npdot(fn, rng):
    c = subexprs(fn, lambda e: isnp(e, "dot") and len(e.args) == 2 and not e.keywords)
    if not c:
        return False
    x = rng.choice(c)
    return put(x, ast.BinOp(x[3].args[0], ast.MatMult(), x[3].args[1]))


@kind
def npmeth(fn, rng):
    """np.min(x) on a value that is an array by construction -> x.min()"""
    c = subexprs(fn, lambda e: isnp(e, "sum", "mean", "min", "max", "argmin", "argmax", "prod", "cumsum") and len(e.args) == 1
                 and (isnp(e.args[0], "array", "asarray", "exp", "log", "sqrt", "abs", "maximum") or isinstance(e.args[0], ast.BinOp) and has(e.args[0], ast.BinOp) and any(isnp(y, "array", "asarray", "exp", "sqrt") for y in ast.walk(e.args[0]))))
    if not c:
        return False
    x = rng.choice(c)
    e = x[3]
    return put(x, ast.Call(ast.Attribute(e.args[0], e.func.attr, ast.Load()), [], e.keywords))


@kind
def chaincmp(fn, rng):
    c = subexprs(fn, lambda e: isinstance(e, ast.Compare) and len(e.ops) == 2 and pure(e.comparators[0]))
    if not c:
        return False
    x = rng.choice(c)
    e = x[3]
    return put(x, ast.BoolOp(ast.And(), [ast.Compare(e.left, [e.ops[0]], [e.comparators[0]]), ast.Compare(copy.deepcopy(e.comparators[0]), [e.ops[1]], [e.comparators[1]])]))


@kind
def indexloop(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Name, ast.Attribute)) and not s.orelse:
                nm = ast.unparse(s.iter)
                root = nm.split(".")[0]
                body = ast.Module(s.body, [])
                if root in names(body) or s.target.id in {t for t in names(body, ast.Store)}:
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    k = "pos_%d" % rng.randint(0, 99)
    s.body.insert(0, ast.Assign([s.target], ast.Subscript(copy.deepcopy(s.iter), ast.Name(k, ast.Load()), ast.Load())))
    s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [s.iter], [])], [])
    s.target = ast.Name(k, ast.Store())
    return True


@kind
def isinstsplit(fn, rng):
    c = subexprs(fn, lambda e: isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and isinstance(e.args[1], ast.Tuple) and len(e.args[1].elts) > 1 and pure(e.args[0]))
    if not c:
        return False
    x = rng.choice(c)
    e = x[3]
    return put(x, ast.BoolOp(ast.Or(), [ast.Call(ast.Name("isinstance", ast.Load()), [copy.deepcopy(e.args[0]), t], []) for t in e.args[1].elts]))


@kind
def insplit(fn, rng):
    c = subexprs(fn, lambda e: isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.comparators[0], (ast.List, ast.Tuple)) and len(e.comparators[0].elts) > 1 and pure(e.left) and all(isinstance(z, ast.Constant) for z in e.comparators[0].elts))
    if not c:
        return False
    x = rng.choice(c)
    e = x[3]
    if rng.random() < .5:
        t = e.comparators[0]
        e.comparators[0] = (ast.Tuple if isinstance(t, ast.List) else ast.List)(t.elts, ast.Load())
        return True
    pos = isinstance(e.ops[0], ast.In)
    return put(x, ast.BoolOp(ast.Or() if pos else ast.And(), [ast.Compare(copy.deepcopy(e.left), [ast.Eq() if pos else ast.NotEq()], [z]) for z in e.comparators[0].elts]))


@kind
def dictform(fn, rng):
    c = subexprs(fn, lambda e: isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args and e.keywords and all(k.arg for k in e.keywords)
                 or isinstance(e, ast.Dict) and e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in e.keys))
    if not c:
        return False
    x = rng.choice(c)
    e = x[3]
    if isinstance(e, ast.Dict):
        return put(x, ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(e.keys, e.values)]))
    return put(x, ast.Dict([ast.Constant(k.arg) for k in e.keywords], [k.value for k in e.keywords]))


@kind
def lambda2def(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and s.value is not None:
                ls = [n for n in ast.walk(s.value) if isinstance(n, ast.Lambda)]
                if len(ls) == 1 and not has(s.value, ast.ListComp, ast.GeneratorExp, ast.DictComp):
                    c.append((b, i, s, ls[0]))
    if not c:
        return False
    b, i, s, l = rng.choice(c)
    h = "_fn_%d" % rng.randint(0, 99)
    d = ast.FunctionDef(h, l.args, [ast.Return(l.body)], [], None)
    if sys.version_info >= (3, 12):
        d.type_params = []
    b.insert(i, d)
    for x in subexprs(s, lambda e: e is l):
        put(x, ast.Name(h, ast.Load()))
    return True


@kind
def def2lambda(fn, rng):
    c = []
    for par, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.FunctionDef) and s is not fn and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and not s.decorator_list:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i] = ast.Assign([ast.Name(s.name, ast.Store())], ast.Lambda(s.args, s.body[0].value))
    return True


@kind
def modconst(fn, rng):
    """literal number / list of strings -> module level constant"""
    c = subexprs(fn, lambda e: isinstance(e, ast.Constant) and isinstance(e.value, (int, float, str)) and not isinstance(e.value, bool) and e.value not in ("doc",)
                 or isinstance(e, (ast.Tuple, ast.List)) and isinstance(e.ctx, ast.Load) and len(e.elts) > 1 and all(isinstance(z, ast.Constant) for z in e.elts))
    c = [x for x in c if x[1] not in ("defaults", "kw_defaults") and not isinstance(x[0], (ast.JoinedStr, ast.FormattedValue)) and not (isinstance(x[0], ast.Expr)) and not (x[1] == "values" and isinstance(x[0], ast.JoinedStr))]
    # mutable lists only where they are searched
    c = [x for x in c if not isinstance(x[3], ast.List) or isinstance(x[0], ast.Compare)]
    if not c:
        return False
    x = rng.choice(c)
    h = "_CONST_%d" % rng.randint(0, 999)
    put(x, ast.Name(h, ast.Load()))
    return ("helper", ast.Assign([ast.Name(h, ast.Store())], x[3]))


@kind
def contin(fn, rng):
    c = []
    for par, fld, b in blocks(fn):
        if isinstance(par, ast.For) and fld == "body" and isinstance(b[-1], ast.If) and not b[-1].orelse:
            c.append(b)
    if not c:
        return False
    b = rng.choice(c)
    s = b.pop()
    b.append(ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], []))
    b.extend(s.body)
    return True


@kind
def appendform(fn, rng):
    loc = locals_of(fn) - params_of(fn)
    init = {t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) and isinstance(n.value, ast.List) for t in n.targets if isinstance(t, ast.Name)}
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "extend") and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in init & loc and len(s.value.args) == 1:
                c.append((b, i, s))
    if not c or has(fn, ast.FunctionDef) and len([n for n in ast.walk(fn) if isinstance(n, ast.FunctionDef)]) > 1:
        return False
    b, i, s = rng.choice(c)
    v = s.value.args[0]
    b[i] = ast.AugAssign(ast.Name(s.value.func.value.id, ast.Store()), ast.Add(), ast.List([v], ast.Load()) if s.value.func.attr == "append" else v)
    return True


@kind
def splitunpack(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(t, ast.Name) for t in s.targets[0].elts) and isinstance(s.value, ast.Call):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    t = "pair_%d" % rng.randint(0, 99)
    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], s.value)] + [ast.Assign([x], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(k), ast.Load())) for k, x in enumerate(s.targets[0].elts)]
    return True


@kind
def supers(fn, rng):
    c = subexprs(fn, lambda e: isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2)
    if not c:
        return False
    x = rng.choice(c)
    x[3].args = []
    return True


@kind
def inline_temp(fn, rng):
    c = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and t.value is not None:
                n = s.targets[0].id
                us = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n]
                if len(us) != 2 or has(t, ast.ListComp, ast.Lambda, ast.GeneratorExp, ast.DictComp, ast.IfExp, ast.BoolOp):
                    continue
                # nothing effectful before the use
                if sum(isinstance(x, ast.Call) for x in ast.walk(t)) > 1 and has(s.value, ast.Call):
                    continue
                if isinstance(t, ast.Assign) and any(not isinstance(z, ast.Name) for z in t.targets):
                    continue
                h = subexprs(t, lambda e: isinstance(e, ast.Name) and e.id == n and isinstance(e.ctx, ast.Load))
                if len(h) == 1:
                    c.append((b, i, s, h[0]))
    if not c:
        return False
    b, i, s, h = rng.choice(c)
    put(h, s.value)
    del b[i]
    return True


@kind
def commute(fn, rng):
    def num(e):
        return isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add)) and not has(e, ast.List, ast.ListComp, ast.Tuple, ast.Starred, ast.JoinedStr) and \
            not any(isinstance(z, ast.Constant) and isinstance(z.value, str) for z in ast.walk(e)) and \
            (isinstance(e.op, ast.Mult) or any(isinstance(z, (ast.Pow, ast.Mult, ast.Sub, ast.Div)) for z in ast.walk(e))) and sum(isinstance(z, ast.Call) and not isnp(z, "exp", "sqrt", "sum", "abs", "log", "dot", "log10", "max") for z in ast.walk(e)) < 2
    c = subexprs(fn, num)
    if not c:
        return False
    e = rng.choice(c)[3]
    e.left, e.right = e.right, e.left
    return True


@kind
def anyloop(fn, rng):
    """if any(P for x in xs): S  ->  flag loop"""
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            t = s.test if isinstance(s, ast.If) else None
            neg = False
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, True
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and len(t.args) == 1 and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and len(t.args[0].generators) == 1:
                c.append((b, i, s, t, neg))
    # elif positions cannot take a statement before them
    c = [x for x in c if not (x[0] and len(x[0]) == 1 and any(getattr(p, "orelse", None) is x[0] for p in ast.walk(fn)) and isinstance(x[0][0], ast.If) and False)]
    if not c:
        return False
    b, i, s, t, neg = rng.choice(c)
    g = t.args[0].generators[0]
    fl = "flag_%d" % rng.randint(0, 99)
    isany = t.func.id == "any"
    test = t.args[0].elt if isany else ast.UnaryOp(ast.Not(), t.args[0].elt)
    inner = ast.If(test, [ast.Assign([ast.Name(fl, ast.Store())], ast.Constant(isany)), ast.Break()], [])
    for cnd in g.ifs:
        inner = ast.If(cnd, [inner], [])
    loop = ast.For(g.target, g.iter, [inner], [])
    b[i:i] = [ast.Assign([ast.Name(fl, ast.Store())], ast.Constant(not isany)), loop]
    nm = ast.Name(fl, ast.Load())
    s.test = ast.UnaryOp(ast.Not(), nm) if neg else nm
    return True


@kind
def sumloop(fn, rng):
    """x = sum(...)/np.sum([... for ...]) -> accumulation"""
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "sum" and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)) and len(s.value.args[0].generators) == 1:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    n = s.targets[0].id
    g = s.value.args[0].generators[0]
    inner = ast.AugAssign(ast.Name(n, ast.Store()), ast.Add(), s.value.args[0].elt)
    for cnd in g.ifs:
        inner = ast.If(cnd, [inner], [])
    b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], ast.Constant(0)), ast.For(g.target, g.iter, [inner], [])]
    return True


@kind
def retvar(fn, rng):
    """returns of one if/else collected in one variable"""
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and i == len(b) - 1 and s.orelse and isinstance(s.body[-1], ast.Return) and isinstance(s.orelse[-1], ast.Return) and s.body[-1].value is not None and s.orelse[-1].value is not None:
                c.append((b, i, s))
            if isinstance(s, ast.If) and i == len(b) - 2 and not s.orelse and isinstance(s.body[-1], ast.Return) and isinstance(b[i + 1], ast.Return) and s.body[-1].value is not None and b[i + 1].value is not None:
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    if not s.orelse:
        s.orelse = [b.pop()]
    n = "out_%d" % rng.randint(0, 99)
    s.body[-1] = ast.Assign([ast.Name(n, ast.Store())], s.body[-1].value)
    s.orelse[-1] = ast.Assign([ast.Name(n, ast.Store())], s.orelse[-1].value)
    b.append(ast.Return(ast.Name(n, ast.Load())))
    return True


@kind
def kw2pos(fn, rng):
    """keyword arguments written positionally where the callee is a package function / class"""
    P = Program(REPO)
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.keywords and n.keywords[0].arg and not any(isinstance(x, ast.Starred) for x in n.args):
            for q, f in P.funcs.items():
                if f.cls is None and q.split(".")[-1] == n.func.id:
                    ps = [a.arg for a in f.node.args.args]
                    if len(n.args) < len(ps) and ps[len(n.args)] == n.keywords[0].arg:
                        c.append(n)
    if not c:
        return False
    n = rng.choice(c)
    n.args.append(n.keywords.pop(0).value)
    return True


@kind
def extract_method(fn, rng):
    """a run of statements becomes a private method of the same class"""
    if not fn.args.args or fn.args.args[0].arg != "self" or fn.decorator_list:
        return False
    r = extract_stmts(fn, rng)
    if not r:
        return False
    h = r[1]
    ps = [a.arg for a in h.args.args]
    rest = [p for p in ps if p != "self"]
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == h.name:
            n.func = ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load())
            n.args = [ast.Name(p, ast.Load()) for p in rest]
    h.args.args = [ast.arg("self")] + [ast.arg(p) for p in rest]
    return ("method", h)


@kind
def extract_method_expr(fn, rng):
    if not fn.args.args or fn.args.args[0].arg != "self" or fn.decorator_list:
        return False
    r = extract_expr(fn, rng)
    if not r:
        return False
    h = r[1]
    ps = [a.arg for a in h.args.args]
    rest = [p for p in ps if p != "self"]
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == h.name:
            n.func = ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load())
            n.args = [ast.Name(p, ast.Load()) for p in rest]
    h.args.args = [ast.arg("self")] + [ast.arg(p) for p in rest]
    return ("method", h)


@kind
def elif2nested(fn, rng):
    """tests of an if chain stored in named booleans (pure tests only)"""
    c = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and pure(s.test):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    n = "cond_%d" % rng.randint(0, 99)
    b.insert(i, ast.Assign([ast.Name(n, ast.Store())], s.test))
    s.test = ast.Name(n, ast.Load())
    return True


@kind
def zipindex(fn, rng):
    """for a, b in zip(x, y) -> for i, a in enumerate(x): b = y[i]   (names only, equal lengths assumed by zip of same origin: skipped)"""
    return False


@kind
def multi(fn, rng):
    ok = False
    h = []
    for _ in range(4):
        k = rng.choice([x for x in KINDS if x != "multi"])
        r = KINDS[k](fn, rng)
        if isinstance(r, tuple):
            h.append(r)
            r = True
        ok = ok or r
    if h:
        return ("helpers", h)
    return ok


def make(args):
    q, k, seed = args
    P = Program(REPO)
    rng = random.Random(seed)
    f = P.funcs[q]
    node = copy.deepcopy(f.node)
    if ast.get_docstring(node):
        node.body[0] = ast.Expr(ast.Constant("doc"))
    r = KINDS[k](node, rng)
    if not r:
        return None
    hs, ms = [], []
    if isinstance(r, tuple):
        for kd, h in ([r] if r[0] != "helpers" else r[1]):
            (hs if kd == "helper" else ms).append(h)
    ast.fix_missing_locations(node)
    lines = f.module.src.split("\n")
    start = min([f.node.lineno] + [x.lineno for x in f.node.decorator_list]) - 1
    ind = " " * f.node.col_offset
    body = "\n".join(ind + l for l in ast.unparse(node).split("\n"))
    for h in ms:
        ast.fix_missing_locations(h)
        body += "\n\n" + "\n".join(ind + l for l in ast.unparse(h).split("\n"))
    src = "\n".join(lines[:start] + [body] + lines[f.node.end_lineno:])
    for h in hs:
        ast.fix_missing_locations(h)
        src += "\n\n" + ast.unparse(h) + "\n"
    try:
        ast.parse(src)
    except SyntaxError:
        return None
    return f.module.rel, src, body + "\n" + "\n".join(ast.unparse(h) for h in hs)


_R = None


def targets(R):
    out = []
    for q, f in sorted(R.funcs.items()):
        if f.cls is None:
            out.append(q)
    for cq, c in sorted(R.classes.items()):
        ns = set()
        for k in R.mro(c):
            ns |= set(k.methods) | {n + '@set' for n in k.setters}
        for n in sorted(ns):
            out.append(cq + '.' + n)
    return [t for t in out if not t.rsplit(".", 1)[1].startswith("_") or t.rsplit(".", 1)[1].startswith("__") or t.rsplit(".", 1)[1] in ("_gaussian_acquisition", "_return_std", "_run_search")]


def judge(a):
    global _R
    sys.setrecursionlimit(30000)
    if _R is None:
        _R = Program("/verif/ref")
    try:
        r = make(a)
    except Exception as e:
        return a, "TOOL " + repr(e)[:100], "", ""
    if r is None:
        return a, None, "", ""
    rel, src, body = r
    try:
        A = Program(REPO, overlay={rel: src})
        P = Pair(A, _R)
        worst, info = HOLD, ""
        q = a[0]
        priv = q.rsplit(".", 1)[1].startswith("_") and not q.rsplit(".", 1)[1].startswith("__")
        for t in targets(_R):
            # functions that can reach the change: same module, or anything when private
            if _R.funcs.get(t) is not None and _R.funcs[t].module.rel != rel:
                continue
            if _R.funcs.get(t) is None and _R.modules.get(".".join(t.split(".")[:-2])) is not None and _R.modules[".".join(t.split(".")[:-2])].rel != rel:
                continue
            for o in P.decide(t, ["*", "events", "own"]):
                if o.verdict == BROKEN:
                    return a, BROKEN, o.key() + " " + o.text, body
                if o.verdict == UNKNOWN and worst == HOLD:
                    worst, info = UNKNOWN, o.key() + " " + o.text
        return a, worst, info, body
    except Exception as e:
        import traceback
        return a, "EXC", traceback.format_exc()[-600:], body


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    ks = [x for x in sys.argv[2].split(",") if x] if len(sys.argv) > 2 else []
    flt = [x for x in sys.argv[3].split(",") if x] if len(sys.argv) > 3 else []
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    rng = random.Random(seed)
    P = Program(REPO)
    qs = [q for q in sorted(P.funcs) if not flt or any(x in q for x in flt)]
    jobs = [(rng.choice(qs), rng.choice(ks or sorted(KINDS)), rng.randint(0, 10**9)) for _ in range(n)]
    c = collections.Counter()
    os.makedirs("/tmp/rfout", exist_ok=True)
    with mp.Pool(8) as pool:
        for a, v, info, body in pool.imap_unordered(judge, jobs, chunksize=2):
            if v is None:
                continue
            c[(a[1], v)] += 1
            c[v] += 1
            if v != HOLD:
                fn = "/tmp/rfout/%s_%s_%d.txt" % (a[0].replace("skopt.", ""), a[1], a[2])
                open(fn, "w").write(info + "\n\n" + body)
                print(v, a, info[:400] if v != UNKNOWN else info[:200])
    for k in sorted(c, key=str):
        print(k, c[k])
