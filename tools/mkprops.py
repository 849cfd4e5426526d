"""Write properties.jsonl, MANIFEST.json and sa/floors.json from the property table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
from sa import props
from sa.check import decide, parse_target
from sa.loader import Program
from sa.equiv import Pair

R = Program(os.path.join(HERE, "ref"))
floors = {}
pair = Pair(Program("/repo"), R)
lines, checks = [], []


def files(p):
    out = []
    for t in p["targets"]:
        _, q, _, _ = parse_target(t)
        if ":" in q:
            kind, rest = q.split(":", 1)
            for s in rest.split():
                s = s if s.startswith("skopt") else "skopt." + s
                while s and s not in R.modules:
                    s = s.rpartition(".")[0]
                if s and s != "skopt":
                    out.append(R.modules[s].rel)
            continue
        while q not in R.modules:
            q = q.rpartition(".")[0]
        out.append(R.modules[q].rel)
    return sorted(set(out)) or ["skopt/__init__.py"]


def mech(p):
    out = [dict(name=n, where=w) for n, w in p["mech"]]
    return out


for p in props.P:
    obs, finds, counts = decide(pair, p)
    floors[p["id"]] = {"obligations": int(len(obs) * 0.9), "rules": {k: int(v * 0.7) for k, v in counts.items() if k.startswith("rule") and "laws" not in k}}
    lines.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                      why_tests_cant=p["why"], anchors=dict(files=files(p), mechanism=mech(p),
                      observe_at=sorted({t.lstrip("?").split(" : ")[0] for t in p["targets"] if " : " in t})[:12])))
    rules = any(t.startswith("rule:") for t in p["targets"])
    terms = any(" : " in t for t in p["targets"])
    tech = []
    if terms:
        tech.append("value-graph comparison of source slices (gated SSA over the syntax tree, interprocedural)")
    if rules:
        tech.append("syntax-tree and call-binding rules")
    if not terms and not rules:
        tech.append("signature, export and class-hierarchy comparison over the syntax tree")
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                       technique="; ".join(tech), level="other",
                       level_note=p["note"] or "Static, no execution: decides that the listed observable slices of the current source equal the reviewed "
                       "specification source for every input, path and history of calls; trusts the specification source, the models of third-party calls, "
                       "and exact arithmetic. Slices outside the modelled vocabulary are reported as undecided in the evidence, not as violations."))
for i, t, s, over, q, why, reason in props.NA:
    lines.append(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q), why_tests_cant=why,
                      anchors=dict(files=["skopt/optimizer/optimizer.py"], mechanism=[])))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for l in lines:
        assert len(l["title"]) <= 80, l["title"]
        f.write(json.dumps(l) + "\n")
man = dict(version=1, setup_cmd="python3 -m compileall -q sa run.py || true", checks=checks,
           not_applicable=[dict(property=x[0], reason=x[6]) for x in props.NA],
           notes="Static analysis only: no check imports or runs skopt. python3 (standard library) is the only requirement. "
                 "known-findings.txt lists recorded and repaired defects.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(floors, open(os.path.join(HERE, "sa", "floors.json"), "w"), indent=1, sort_keys=True)
print(len(checks), "checks", sum(len(l["statement"].split(". ")) > 3 for l in lines), "long statements")
