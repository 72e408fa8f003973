#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check could not be carried out (build failure, lost process, ...).
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
GOROOTS = ["/opt/veriftools/go1.27.3"]

sys.path.insert(0, HERE)


def go_env():
    env = dict(os.environ)
    path = [os.path.join(g, "bin") for g in GOROOTS if os.path.isdir(g)]
    env["PATH"] = os.pathsep.join(path + ["/usr/local/bin", "/usr/bin", "/bin", env.get("PATH", "")])
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               GOSUMDB="off", CGO_ENABLED="0", TZ="America/Sao_Paulo", LC_ALL="C.UTF-8")
    env.pop("GOROOT", None)
    return env


def find_package(pid):
    base = os.path.join(HARNESS, "checks")
    for d in sorted(os.listdir(base)):
        for f in sorted(os.listdir(os.path.join(base, d))):
            if f.endswith("_test.go"):
                with open(os.path.join(base, d, f)) as fh:
                    if re.search(r"^func Test%s\(" % pid, fh.read(), re.M):
                        return d
    sys.exit("no check named Test%s" % pid)


def limits():
    lim = 14 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            sys.exit("bad argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = run(pid, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def child(env, binary, pid, cwd, extra, logpath, timeout, stats, case):
    e = dict(env)
    e.update(extra)
    e["VERIF_STATS"] = stats
    e["VERIF_CASE"] = case
    for p in (stats, case):
        if os.path.exists(p):
            os.unlink(p)
    with open(logpath, "wb") as log:
        p = subprocess.Popen([binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-test.v"],
                             cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             preexec_fn=limits, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        if rc is None:
            p.wait()
    st = None
    try:
        st = json.load(open(stats))
    except (OSError, ValueError):
        pass
    return rc, st


def tail(path, n=40):
    try:
        lines = open(path, errors="replace").read().splitlines()
    except OSError:
        return ""
    # keep the interesting part of Go crash reports
    for i, l in enumerate(lines):
        if l.startswith(("panic:", "fatal error:", "runtime:")):
            return "\n".join(lines[i:i + n])
    return "\n".join(lines[-n:])


def run(pid, tier, seed, replay, scratch, t0):
    env = go_env()
    pkg = find_package(pid)
    binary = os.path.join(scratch, "check.test")
    b = subprocess.run(["go", "test", "-c", "-o", binary, "./checks/" + pkg], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print("cannot build the check:\n" + b.stdout)
        return 2
    build_s = time.time() - t0
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp)
    env.update(TMPDIR=tmp, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_HARNESS=HARNESS,
               VERIF_REPO="/repo", VERIF_GOROOT=GOROOTS[0])
    extra = {}
    if replay:
        r = json.load(open(replay))
        extra = {"VERIF_SUB": r["check"]}
        if r.get("seed"):
            extra.update(VERIF_RAW_SEED=str(r["seed"]), VERIF_CHECKS=str(r.get("checks", 1)))
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    log = os.path.join(scratch, "log")
    stats, case = os.path.join(scratch, "stats.json"), os.path.join(scratch, "case")
    timeout = 800 if tier == "quick" else 4 * 3600
    rc, st = child(env, binary, pid, cwd, extra, log, timeout, stats, case)
    if rc is None:
        print("inconclusive: the check did not finish in %d s" % timeout)
        return 2
    failures = list((st or {}).get("failures") or [])
    done = bool(st and st.get("done"))
    if not done:
        # the process died: by a crash or exit of the code under test, or for want of resources.
        why = tail(log)
        last = open(case, errors="replace").read() if os.path.exists(case) else ""
        sub, _, desc = last.partition("\n")
        known_hang = [f for f in failures if "did not finish" in f.get("message", "")]
        if not sub or rc == -9:
            print("the check's process was lost (%s):\n%s" % (rc, why))
            return 2
        # confirm from a fresh process before reporting anything
        x = dict(extra)
        x["VERIF_SUB"] = sub
        rc2, st2 = child(env, binary, pid, cwd, x, log + "2", timeout, stats + "2", case + "2")
        last2 = open(case + "2", errors="replace").read() if os.path.exists(case + "2") else ""
        if (st2 and st2.get("done")) or rc2 in (None, -9) or last2 != last:
            if st2 and st2.get("done") and st2.get("failures"):
                failures += st2["failures"]
            else:
                print("the check's process was lost (%s) and the loss did not repeat:\n%s" % (rc, why))
                return 2
        else:
            if not known_hang:
                failures.append({"check": sub, "message": "the process ended (status %s) while handling this case\n%s" % (rc, why),
                                 "case": desc, "seed": 0, "checks": 0})
    elif rc != 0 and not failures:
        print("the check failed without reporting a case:\n" + tail(log, 80))
        return 2
    write_evidence(pid, tier, seed, st or {}, failures, t0, build_s)
    listed = {}
    try:
        for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
            if f.get("status") == "open":
                listed[f["id"]] = f
    except OSError:
        pass
    for k in (st or {}).get("known") or []:
        f = listed.get(k["id"])
        if f is None:
            print("probe %s is not in known_findings.json" % k["id"])
            return 2
        if k["fails"]:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], f["what"]))
        else:
            print("note: listed finding %s no longer fails" % k["id"])
    if failures:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for f in failures:
            name = "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", f["check"]))
            path = os.path.join(HERE, "replays", name)
            with open(path, "w") as fh:
                json.dump(dict(f, property=pid, tier=tier, verif_seed=seed,
                               how="run.py %s --replay %s" % (pid, path)), fh, indent=1)
            print("check %s: %s" % (f["check"], f["message"][:3000]))
            print("case: %s" % f["case"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    ev = sum(s["evaluations"] for s in (st or {}).get("subs") or [])
    print("property=%s held on %d generated cases (%s, seed %d, %.1f s)" % (pid, ev, tier, seed, time.time() - t0))
    return 0


def write_evidence(pid, tier, seed, st, failures, t0, build_s):
    subs = st.get("subs") or []
    samples = []
    for s in subs:
        for x in (s.get("samples") or [])[:2]:
            samples.append({"check": s["name"], "case": x})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
            "rule": "; ".join("%s: non-trivial if %s" % (s["name"], s["rule"]) for s in subs),
            "samples": samples,
            "checks": [{k: s.get(k) for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "discarded",
                                              "skipped_by_time_budget", "classes", "wall_s", "failed", "seed")} for s in subs],
        },
        "known_findings_probed": [{"id": k["id"], "still_fails": k["fails"]} for k in st.get("known") or []],
        "assumptions": ASSUME.get(pid, []) + ASSUME_ALL,
        "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")


ASSUME_ALL = ["random search: a violation outside the generated cases is not excluded"]
ASSUME = {}
try:
    ASSUME = json.load(open(os.path.join(HERE, "assumptions.json")))
except OSError:
    pass

if __name__ == "__main__":
    main()
