"""Decide one property on the tree under analysis."""
import json
import os
import re
import time

from .loader import Program, AnchorLost
from .equiv import (Pair, Obligation, HOLD, BROKEN, UNKNOWN, resolve, sig_diff, default_term, Missing, compare, show)
from .rules import RULES
from . import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


def parse_target(t):
    opt = t.startswith("?")
    t = t.lstrip("?")
    if t.startswith(("rule:", "class:", "exports:", "signatures:")):
        return opt, t, (), ()
    head, rest = t.split(" : ")
    masks = ()
    if "~" in rest:
        rest, m = rest.split("~")
        masks = tuple(m.split())
    return opt, "skopt." + head.strip(), tuple(rest.split()), masks


def external_bases(prog, c):
    """external base classes in resolution order, and package ones"""
    out = []
    for k in prog.mro(c):
        out += [b for b in k.bases if b not in prog.classes and b not in ("object",)]
    return out


def class_obligations(pair, q):
    q = "skopt." + q
    A, R = pair.A, pair.R
    a, r = A.cls(q), R.cls(q)
    loc = "%s:%d" % (a.module.rel, a.node.lineno)
    out = []
    xa, xr = external_bases(A, a), external_bases(R, r)
    lost = [b for b in xr if b not in xa]
    pa = [k.qual for k in A.mro(a)]
    lostp = [k.qual for k in R.mro(r) if k.qual not in pa]
    v, txt = HOLD, ""
    if lost or lostp:
        v = BROKEN if all(A.canon(b) == b for b in lost) and all(b in A.classes for b in lostp) else UNKNOWN
        txt = "no longer derives from " + ", ".join(lost + lostp)
    elif [b for b in xa if b in xr] != xr:
        v, txt = BROKEN, "base classes are in a different order"
    out.append(Obligation(q, "bases", v, loc, txt))
    for n, e in sorted(r.attrs.items()):
        if n.startswith("__") and n != "__hash__":
            continue
        k = next((k for k in A.mro(a) if n in k.attrs), None)
        if k is None:
            if n in {m for k in A.mro(a) for m in k.methods} or n in A.stored_attrs:
                continue
            out.append(Obligation(q, "attribute " + n, BROKEN, loc, "class attribute %s is gone" % n))
            continue
        x = default_term(A, FakeFunc(k.module), k.attrs[n])
        y = default_term(R, FakeFunc(r.module), e)
        if x is y and x is not None:
            out.append(Obligation(q, "attribute " + n, HOLD, loc))
        else:
            v, ds, cnt = compare(x, y) if x is not None and y is not None else (UNKNOWN, [], 0)
            out.append(Obligation(q, "attribute " + n, v, loc, "class attribute %s differs" % n if v != HOLD else "", cnt))
    return out


class FakeFunc(object):
    def __init__(self, module):
        self.module = module


def public_names(prog, m):
    """names a module offers: __all__ when it is a literal, else its own definitions"""
    e = m.ns.get("__all__")
    names = None
    if e is not None and e[0] == "const":
        import ast
        try:
            names = list(ast.literal_eval(e[1]))
        except Exception:
            names = None
            if isinstance(e[1], ast.BinOp):
                names = []
                st = [e[1]]
                while st:
                    n = st.pop()
                    if isinstance(n, ast.BinOp):
                        st += [n.left, n.right]
                    else:
                        try:
                            names += list(ast.literal_eval(n))
                        except Exception:
                            return None
    if names is None:
        if e is not None:
            return None
        names = [n for n in m.ns if not n.startswith("_")]
    for s in m.stars:
        if s in prog.modules and e is None:
            sub = public_names(prog, prog.modules[s])
            if sub is None:
                return None
            names += sub
    return names


def export_obligations(pair, mod):
    A, R = pair.A, pair.R
    r = R.modules.get(mod)
    a = A.modules.get(mod)
    if a is None:
        raise AnchorLost("module " + mod)
    out = []
    rn = public_names(R, r) or []
    an = public_names(A, a)
    explicit = "__all__" in a.ns
    for n in sorted(set(rn)):
        y = R.lookup(r, n)
        if y is None or y.split(".")[0] != "skopt":
            continue
        x = A.lookup(a, n)
        v, txt = HOLD, ""
        if x is None:
            v, txt = (BROKEN if not a.stars or all(s in A.modules for s in a.stars) else UNKNOWN), "%s cannot be imported from %s" % (n, mod)
        elif x != y and y in R.classes and x not in A.classes:
            v, txt = BROKEN, "%s of %s is no longer the class %s" % (n, mod, y)
        elif x != y and y in R.funcs and x in A.funcs and y in A.funcs:
            v, txt = BROKEN, "%s of %s is now %s" % (n, mod, x)
        elif x != y and y in R.classes and y in A.classes:
            v, txt = BROKEN, "%s of %s is now %s" % (n, mod, x)
        elif explicit and "__all__" in r.ns and an is not None and n not in an:
            v, txt = BROKEN, "%s is missing from __all__ of %s" % (n, mod)
        out.append(Obligation(mod, "export " + n, v, a.rel + ":1", txt))
    return out


def signature_obligations(pair):
    out = []
    for q, fr in sorted(pair.R.funcs.items()):
        if fr.node.name.startswith("_") and fr.node.name not in ("__init__", "__call__") or "<" in q or q.endswith("@set"):
            continue
        if fr.cls is not None and fr.cls.node.name.startswith("_"):
            continue
        try:
            fr, _ = resolve(pair.R, q)
            fa, _ = resolve(pair.A, q)
        except Missing:
            c = pair.A.classes[pair.A.canon(q.rsplit(".", 1)[0])]
            out.append(Obligation(q, "call interface", BROKEN, "%s:%d" % (c.module.rel, c.node.lineno), "method is gone"))
            continue
        except AnchorLost:
            head = q.rsplit(".", 1)[0]
            if head in pair.A.modules:
                m = pair.A.modules[head]
                n = q.rsplit(".", 1)[1]
                # helpers of submodules that no package exports may move
                pub = any(n in (public_names(pair.R, x) or ()) and pair.R.lookup(x, n) == q for x in pair.R.modules.values() if x.is_pkg or "__all__" in x.ns)
                out.append(Obligation(q, "call interface", BROKEN if pub and pair.A.lookup(m, n) is None else UNKNOWN, m.rel + ":1", "function is gone"))
                continue
            raise
        ds = sig_diff(pair.A, fa, pair.R, fr)
        v = BROKEN if any(d[0] == BROKEN for d in ds) else UNKNOWN if ds else HOLD
        da, dr = [d for d in fa.decorators() if d in ("property", "staticmethod", "classmethod")], \
            [d for d in fr.decorators() if d in ("property", "staticmethod", "classmethod")]
        txt = "; ".join(d[1] for d in ds)
        if da != dr:
            v, txt = BROKEN, "decorated with %s instead of %s" % (da or "nothing", dr or "nothing")
        out.append(Obligation(q, "call interface", v, fa.loc, txt))
    return out


def decide(pair, prop):
    """-> (obligations, rule findings, counts)"""
    obs, finds, counts = [], [], {}
    for t in prop["targets"]:
        opt, q, spec, masks = parse_target(t)
        if q.startswith("rule:"):
            name, *scopes = q[5:].split()
            f, c = RULES[name](pair.A, scopes)
            finds += [(name,) + x for x in f]
            for k, n in c.items():
                counts["rule %s: %s" % (name, k)] = n
        elif q.startswith("class:"):
            obs += class_obligations(pair, q[6:].strip())
        elif q.startswith("exports:"):
            obs += export_obligations(pair, q[8:].strip())
        elif q.startswith("signatures:"):
            obs += signature_obligations(pair)
        else:
            try:
                obs += pair.decide(q, spec, masks)
            except AnchorLost:
                if not opt:
                    raise
                counts["private targets absent"] = counts.get("private targets absent", 0) + 1
    return obs, finds, counts


def known():
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def floors():
    p = os.path.join(HERE, "sa", "floors.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {}


def run(pid, tier, seed):
    t0 = time.time()
    prop = next(p for p in props.P if p["id"] == pid)
    A = Program(REPO)
    R = Program(os.path.join(HERE, "ref"))
    pair = Pair(A, R)
    obs, finds, counts = decide(pair, prop)
    nobs = len(obs)
    fl = floors().get(pid, {})
    if nobs < fl.get("obligations", 1) and not prop["targets"][0].startswith("rule:"):
        raise AnchorLost("only %d obligations for %s, %d expected" % (nobs, pid, fl.get("obligations", 1)))
    for k, n in fl.get("rules", {}).items():
        if counts.get(k, 0) < n:
            raise AnchorLost("%s: only %d instances, %d expected" % (k, counts.get(k, 0), n))
    kn = [(k[1], k[2]) for k in known() if k[0] == pid]
    lines, viol = [], []
    for o in obs:
        if o.verdict == BROKEN:
            viol.append(dict(rule="value of %s" % o.slice, construct=o.target, where=o.where, text=o.text))
    for name, key, where, text in finds:
        hit = [t for k, t in kn if k == key]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, hit[0], where))
        else:
            viol.append(dict(rule=name, construct=key, where=where, text=text))
    unknown = [o for o in obs if o.verdict == UNKNOWN]
    fns = sorted(pair.analysed)
    cov = dict(
        explanation="Static comparison of the current source of /repo with the reviewed specification source in /verif/ref: "
                    "the observable slices (returned value, raised exceptions and their conditions, fields of self, effects) of "
                    "each listed function are computed as value graphs over all paths, helpers inlined, loops in closed or canonical "
                    "form, and compared for every combination of the path conditions. HOLD means the slices are equal for all inputs "
                    "under the normalisation rules; undecided slices are listed and raise no alarm.",
        targets=sorted({o.target.replace("skopt.", "", 1) for o in obs}),
        obligations=nobs,
        discharged=sum(1 for o in obs if o.verdict == HOLD),
        discharged_identically=sum(1 for o in obs if o.verdict == HOLD and o.nodes <= 1),
        undecided=[dict(obligation=o.key(), where=o.where, why=o.text[:300]) for o in unknown][:40],
        comparison_steps=sum(o.nodes for o in obs),
        functions_analysed=len(fns),
        files_analysed=len(A.modules),
        rule_instances=counts,
        tree_digest=A.digest(),
    )
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(wall, 3), violations=len(viol),
              assumptions=["the reference source states the intended behaviour (it was reviewed and repaired against the documentation)",
                           "third-party functions behave as functions of their arguments as modelled in sa/ev.py",
                           "integers and reals are compared as exact numbers; rounding differences of reassociated sums are not observed"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for l in lines:
        print(l)
    print("%s: %d obligations, %d hold, %d undecided, %d broken; %d functions, %.1f s" % (
        pid, nobs, cov["discharged"], len(unknown), len(viol), len(fns), wall))
    for k, n in sorted(counts.items()):
        print("  %s: %d" % (k, n))
    for o in unknown:
        print("  undecided: %s at %s: %s" % (o.key(), o.where, o.text[:200]))
    if viol:
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".txt")
        with open(path, "w", encoding="utf-8") as f:
            f.write("property %s: %s\n%s\n\n" % (pid, prop["title"], prop["statement"]))
            for v in viol:
                f.write("%(where)s: %(construct)s [%(rule)s]\n    %(text)s\n" % v)
            f.write("\nrepeat: cd /verif && python3 run.py %s %s\n" % (pid, tier))
        for v in viol[:12]:
            print("  %(where)s: %(construct)s [%(rule)s]: %(text)s" % v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
