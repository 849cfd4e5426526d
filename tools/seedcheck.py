"""Decide every property on every planted change (in memory) and write tools/seeded-caught.json.
A development tool: no registered check uses it."""
import glob, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)
from sa.equiv import BROKEN, UNKNOWN, Pair, Program
from sa import check, props


def run(d):
    diff = open(os.path.join(d, "patch.diff")).read()
    files = sorted(set(re.findall(r"(?m)^\+\+\+ b/(\S+)", diff)))
    t = tempfile.mkdtemp()
    try:
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(t, f)), exist_ok=True)
            shutil.copy(os.path.join("/repo", f), os.path.join(t, f))
        r = subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=t, capture_output=True, text=True)
        if r.returncode:
            return os.path.basename(d), None, "does not apply: " + r.stdout
        ov = {f: open(os.path.join(t, f)).read() for f in files}
    finally:
        shutil.rmtree(t)
    pair = Pair(Program("/repo", overlay=ov), Program(os.path.join(HERE, "ref")))
    kn = [(k[0], k[1]) for k in check.known()]
    hit, unk = [], []
    for p in props.P:
        obs, finds, _ = check.decide(pair, p)
        if any(o.verdict == BROKEN for o in obs) or any((p["id"], f[1]) not in kn for f in finds):
            hit.append(p["id"])
        unk += [o.key() for o in obs if o.verdict == UNKNOWN]
    return os.path.basename(d), hit, unk[:2]


if __name__ == "__main__":
    ds = sorted(os.path.dirname(x) for x in glob.glob(os.path.join(HERE, "seeded", "*", "patch.diff")))
    out = {}
    with mp.Pool(6) as pool:
        for n, hit, info in pool.imap(run, ds):
            out[n] = hit or []
            own = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))["property"]
            if own not in out[n]:
                print(n, own, hit, info)
    json.dump(out, open(os.path.join(HERE, "tools", "seeded-caught.json"), "w"), indent=0, sort_keys=True)
