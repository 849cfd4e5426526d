"""Rewrite the generated tables at the end of DESIGN.md."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props
MARK = "## Property by property (generated by tools/mkdesign.py)"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n"
s += ("Each line gives the functions whose slices decide the property (`ret` returned value, `raises` rejections, `events` effects, "
      "`self...` fields, `params` arguments, `own` ownership, `*` all of them; `~` names callees whose value is irrelevant), "
      "or the rule applied. The oracle is the specification source, for every input, path and history; no bounds.\n\n")


def short(ts):
    by = {}
    for t in ts:
        if t.startswith("rule:") or " : " not in t:
            by.setdefault(t, [])
            continue
        f, sl = t.split(" : ", 1)
        by.setdefault(sl, []).append(f.lstrip("?"))
    out = []
    for k, v in by.items():
        if not v:
            out.append("`%s`" % k)
        else:
            v = sorted(set(v))
            n = "" if len(v) <= 8 else " and %d more" % (len(v) - 8)
            out.append("%s%s (`%s`)" % (", ".join(v[:8]), n, k))
    return "; ".join(out)


for q in props.P:
    s += "* **%s %s.** %s\n" % (q["id"], q["title"], short(q["targets"]))
for x in props.NA:
    s += "* **%s %s.** Not applicable: %s.\n" % (x[0], x[1], x[6])
s += "\n## Planted changes and the checks that report them (generated)\n\n"
c = {}
f = os.path.join(HERE, "tools", "seeded-caught.json")
if os.path.exists(f):
    c = json.load(open(f))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    s += "* `%s` (%s): %s. Reported by %s.\n" % (n, m["property"], m["what_it_breaks"].rstrip("."), ", ".join(c.get(n, [])) or "no check")
open(p, "w").write(s)
