#!/usr/bin/env python3
"""Runs the check of one property against the current tree of /repo.

usage: check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--only REGEX] [--repo DIR]

exit 0: the property held on every generated case
exit 1: a line "VIOLATION property=<id> replay=<path>" was printed
exit 2: the check could not decide (build failure, time or memory exhausted)
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
GO = "/opt/veriftools/go1.26.10/bin"
RACE = {"C27"}
CLI = {"C19", "C20", "C21", "C22", "C31"}
SHARDS = 4  # processes per facet in the thorough tier

def env_for_go():
    env = dict(os.environ)
    env["PATH"] = GO + ":" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env["HOME"] = "/root"
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOSUMDB="off", GONOSUMDB="*", GOWORK="off")
    for k in list(env):
        if k.startswith("GOTEMPLATE_") or k in ("GODEBUG", "GORACE"):
            del env[k]
    return env

def build(scratch, pid, repo):
    env = env_for_go()
    harness = os.path.join(HERE, "harness")
    if repo != "/repo":
        # development only: same harness against another tree
        dst = os.path.join(scratch, "harness")
        shutil.copytree(harness, dst)
        p = os.path.join(dst, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + repo)
        open(p, "w").write(s)
        harness = dst
    cmds = [(["go", "test", "-c", "-vet=off"] + (["-race"] if pid in RACE else []) + ["-o", scratch + "/props.test", "./props"], harness)]
    if pid in CLI:
        e = dict(env); e["GOFLAGS"] = "-mod=mod"
        cmds.append((["go", "build", "-buildvcs=false", "-o", scratch + "/gotemplate", "."], repo))
    for cmd, cwd in cmds:
        e = dict(env)
        if cwd == repo:
            e["GOFLAGS"] = "-mod=mod"
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print("BUILD-FAILURE", " ".join(cmd)); print(r.stdout[-6000:])
            sys.exit(2)

def run_one(scratch, test, shard, tier, seed, timeout, extra, cases):
    tag = "%s.%d" % (test, shard)
    cwd = os.path.join(scratch, "run", tag); os.makedirs(cwd)
    tmp = os.path.join(scratch, "tmp", tag); os.makedirs(tmp)
    env = env_for_go()
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VP_OUT=os.path.join(scratch, "out"), VP_SHARD=str(shard),
               TMPDIR=tmp, GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66", LC_ALL="C.UTF-8", TERM="dumb")
    if os.path.exists(scratch + "/gotemplate"):
        env["VP_CLI"] = scratch + "/gotemplate"
    if cases:
        env["VP_CASES"] = str(cases)
    log = os.path.join(scratch, "out", tag + ".log")
    with open(log, "wb") as f:
        p = subprocess.Popen([scratch + "/props.test", "-test.run", "^%s$" % test, "-test.v", "-test.timeout", "0"] + extra,
                             cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return test, shard, rc, log, cwd

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED") or "1")
        except ValueError:
            seed = 1
    pid = a.property
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    for d in ("run", "tmp", "out"):
        os.makedirs(os.path.join(scratch, d))
    os.chmod(scratch, 0o755)
    try:
        rc = work(a, pid, tier, seed, scratch, start)
    finally:
        if not a.keep:
            subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    sys.exit(rc)

def work(a, pid, tier, seed, scratch, start):
    build(scratch, pid, a.repo)
    listed = subprocess.run([scratch + "/props.test", "-test.list", "^Test%s_" % pid], cwd=scratch, env=env_for_go(),
                            stdout=subprocess.PIPE, text=True).stdout.split()
    tests = [t for t in listed if t.startswith("Test%s_" % pid) and re.search(a.only, t)]
    if not tests:
        print("no check for", pid)
        return 2
    extra = []
    if a.replay:
        first = open(a.replay, errors="replace").read(4000)
        m = re.search(r"Test%s_\w+" % pid, os.path.basename(a.replay)) or re.search(r"Test%s_\w+" % pid, first)
        tests = [m.group(0)] if m else tests
        extra = ["-rapid.failfile=" + os.path.abspath(a.replay)]
    shards = SHARDS if tier == "thorough" and not a.replay else 1
    jobs = [(t, s) for s in range(shards) for t in tests]
    timeout = (780 if tier == "quick" else 6 * 3600)
    deadline = start + timeout
    results = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=4 if pid in RACE else 8) as ex:
        futs = [ex.submit(lambda t=t, s=s: run_one(scratch, t, s, tier, seed, max(5, deadline - time.time()), extra, a.cases)) for t, s in jobs]
        for f in futs:
            results.append(f.result())
    evals = distinct = 0
    rules, samples, classes, facets, viol, inconclusive = [], [], {}, {}, [], []
    for test, shard, rc, log, cwd in results:
        text = open(log, errors="replace").read()
        st = None
        sp = os.path.join(scratch, "out", "%s.%d.json" % (test, shard))
        if os.path.exists(sp):
            st = json.load(open(sp))
        for line in re.findall(r"^KNOWN-FINDING: .*$", text, re.M):
            if line not in rules:
                print(line)
        if st:
            evals += st["evaluations"]; distinct += st["distinct_nontrivial"]
            f = facets.setdefault(test, dict(evaluations=0, distinct_nontrivial=0, wall_s=0, classes={}))
            f["evaluations"] += st["evaluations"]; f["distinct_nontrivial"] += st["distinct_nontrivial"]; f["wall_s"] = round(max(f["wall_s"], st["wall_s"]), 2)
            for k, v in st["classes"].items():
                f["classes"][k] = f["classes"].get(k, 0) + v
            if shard == 0:
                rules.append("%s: %s" % (test, st["rule"]))
                samples += [dict(facet=test, case=s) for s in (st["samples"] or [])[:2]]
        if rc == 0 and st and st["finished"]:
            continue
        case_file = os.path.join(scratch, "out", "%s.%d.case" % (test, shard))
        case = open(case_file, errors="replace").read() if os.path.exists(case_file) else ""
        if rc == 1 and "--- FAIL" in text:
            kind = "failed"
        elif rc == 66 or "WARNING: DATA RACE" in text:
            kind = "data race"
        elif rc == 97:
            kind = "runaway"
        elif rc == 2 and case and re.search(r"^(fatal error: (stack overflow|concurrent map|all goroutines are asleep|sync: )|runtime: goroutine stack exceeds|panic: )", text, re.M) and "out of memory" not in text:
            kind = "crash"
        elif rc is not None and rc >= 0 and rc not in (2,) and st is None and case:
            kind = "process exited during a case (exit code %s)" % rc
        else:
            kind = None
        if kind:
            viol.append((test, shard, kind, text, case, cwd))
        else:
            inconclusive.append((test, shard, rc, text[-3000:]))
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for test, shard, kind, text, case, cwd in viol:
        base = os.path.join(rdir, "%s-seed%d-%d" % (test, seed, shard))
        fails = []
        for top in (cwd, os.path.join(scratch, "tmp", "%s.%d" % (test, shard))):
            for r, _, fs in os.walk(top):
                fails += [os.path.join(r, x) for x in fs if x.endswith(".fail")]
        if fails:
            path = base + ".fail"
            shutil.copy(sorted(fails)[0], path)
        else:
            path = base + ".txt"
            open(path, "w").write("property %s, check %s, tier %s, seed %d: %s\ncase being run:\n%s\n\noutput:\n%s\n" % (pid, test, tier, seed, kind, case, text[-20000:]))
        print("---- %s (%s)" % (test, kind)); print(text[-3500:] if kind == "failed" else (case[-1500:] + "\n" + text[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for test, shard, rc, tail in inconclusive:
        print("---- INCONCLUSIVE %s shard %d rc=%s\n%s" % (test, shard, rc, tail))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule="; ".join(rules), samples=samples, facets=facets),
              wall_s=round(time.time() - start, 2), violations=len(viol))
    if not a.replay and not a.only and a.repo == "/repo":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, seed, evals, distinct, time.time() - start))
    for t, f in facets.items():
        print("   %-40s %6d cases %6d distinct %6.1fs %s" % (t, f["evaluations"], f["distinct_nontrivial"], f["wall_s"], f["classes"]))
    if viol:
        return 1
    if inconclusive:
        return 2
    return 0

if __name__ == "__main__":
    main()
