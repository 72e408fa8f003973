#!/usr/bin/env python3
"""plant.py ID...: confirms a planted bug (clean demo passes, patched tree builds, passes the
stable tests, fails the demo) and says whether the property's check reports it.
Works on /repo and restores it. plant.py --new ID PROP writes patch.diff from /repo's dirty tree."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    return sh("bash", "/opt/vp/build.sh")
def tests():
    sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
    d = json.load(open("/tmp/plant.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [s for s in stable if s not in d["passed"]]
def record(i, prop, out, caught):
    """tools/catches.tsv: which check reported the planted bug (read by mkdesign.py)."""
    p = os.path.join(ROOT, "tools", "catches.tsv")
    rows = dict(l.rstrip("\n").split("\t") for l in open(p)) if os.path.exists(p) else {}
    subs = sorted({os.path.basename(l.split("replay=")[1].strip()).rsplit(".", 1)[0] for l in out.splitlines() if "VIOLATION property=" in l and "replay=" in l})
    rows[i] = "%s quick (%s)" % (prop, ", ".join(subs)) if caught else "missed by " + prop
    open(p, "w").write("".join("%s\t%s\n" % kv for kv in sorted(rows.items())))
def main(ids, seed):
    rows = []
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout, "dirty /repo"
        meta = json.load(open(d + "/meta.json"))
        demo = ["bash", d + "/demo.sh"]
        r0 = sh(*demo, cwd="/repo")
        a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
        if a.returncode: rows.append((i, "DOES NOT APPLY " + a.stdout)); continue
        try:
            b = build()
            t = tests() if b.returncode == 0 else ["?"]
            r1 = sh(*demo, cwd="/repo")
            c = sh("python3", "run.py", meta["property"], "--seed", seed, cwd=ROOT)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        st = []
        if r0.returncode: st.append("DEMO FAILS CLEAN:" + r0.stdout[-1500:])
        if b.returncode: st.append("DOES NOT BUILD:" + b.stdout[-1500:])
        if t: st.append("BREAKS TESTS " + ",".join(t))
        if r1.returncode == 0: st.append("DEMO PASSES PATCHED")
        if not st: st.append("ok")
        caught = c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout
        st.append("CAUGHT" if caught else "MISSED rc=%d" % c.returncode)
        rows.append((i, meta["property"], *st))
        record(i, meta["property"], c.stdout, caught)
        print(*rows[-1], flush=True)
        if os.environ.get("V"): print(c.stdout[-2500:]); print(r1.stdout[-1500:])
if __name__ == "__main__":
    a = sys.argv[1:]
    seed = "1"
    if a and a[0] == "--seed": seed = a[1]; a = a[2:]
    main(a or sorted(os.listdir(os.path.join(ROOT, "seeded"))), seed)
