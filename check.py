#!/usr/bin/env python3
"""Runs the check of one property against the working tree of /repo.

    check.py ID quick|thorough        decide the property
    check.py --replay FILE            run one saved failing case again
    check.py --setup                  warm the build cache
    check.py ID quick --keep          keep the scratch directory

exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from props import PROPS, SHARED  # noqa: E402

NOT_VIOLATION = ("signal: killed", "out of memory", "cannot allocate memory")


def goenv():
    env = dict(os.environ)
    # what /opt/vp/env.sh sets, so that the checks do not depend on the caller's shell
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="-mod=readonly", LC_ALL="C")
    env.setdefault("HOME", "/root")
    p = "/opt/vp/env.sh"
    if os.path.exists(p):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; echo \"$PATH\"; echo \"$GOCACHE\"; echo \"$GOMODCACHE\"; echo \"$GOPATH\"" % p],
                             capture_output=True, text=True, env=env).stdout.split("\n")
        for k, v in zip(("PATH", "GOCACHE", "GOMODCACHE", "GOPATH"), out):
            if v.strip():
                env[k] = v.strip()
    return env


def build(pid, tmp, env):
    spec = PROPS[pid]
    files = SHARED[spec.get("shared", "net")] + spec["files"]
    cmd = ["go", "test", "-vet=off", "-c", "-o", os.path.join(tmp, "h.test")]
    if spec.get("race"):
        cmd += ["-race", "-ldflags=-checklinkname=0"]
    r = subprocess.run(cmd + files, cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print("the harness does not build against /repo:\n" + (r.stdout + r.stderr)[-4000:])
        sys.exit(2)
    return os.path.join(tmp, "h.test")


def start(spec, binary, tmp, i, seed, tests, scale, budget, env, extra=()):
    cwd = os.path.join(tmp, "shard%d" % i)
    os.makedirs(cwd, exist_ok=True)
    out = os.path.join(cwd, "report.json")
    e = dict(env)
    e.update(VERIF_OUT=out, VERIF_SCALE=str(scale), VERIF_BUDGET=str(budget), GOMAXPROCS=str(spec.get("procs", 1)),
             GOTRACEBACK="all", TMPDIR=cwd, GORACE="halt_on_error=1 exitcode=66")
    log = open(os.path.join(cwd, "out.txt"), "wb")
    args = [binary, "-test.run", tests, "-test.timeout", "0", "-rapid.seed", str(seed), "-rapid.shrinktime", "20s"] + list(extra)
    p = subprocess.Popen(args, cwd=cwd, env=e, stdout=log, stderr=subprocess.STDOUT)
    return {"p": p, "cwd": cwd, "out": out, "seed": seed, "i": i, "log": log}


def judge(s):
    """-> (report, failures, problems) of a finished shard"""
    s["log"].close()
    rc = s["p"].returncode
    with open(os.path.join(s["cwd"], "out.txt"), "rb") as f:
        text = f.read().decode("utf-8", "replace")
    rep = {}
    try:
        rep = json.load(open(s["out"]))
    except Exception:
        pass
    failures, problems = list(rep.get("failures") or []), []
    if rep.get("inconclusive"):
        problems.append(rep["inconclusive"])
    if rep.get("done") or rep.get("deadlock") or rep.get("inconclusive"):
        if rc != 0 and not failures and not rep.get("inconclusive"):
            if "WARNING: DATA RACE" in text:
                failures.append("data race\n" + text[-6000:])
            else:
                problems.append("the tests failed without a failing case:\n" + text[-3000:])
        return rep, failures, problems
    # the process ended before its report was complete
    last = ""
    try:
        last = open(s["out"] + ".log", "rb").read().split(b"\n")[0].decode("utf-8", "replace")
    except Exception:
        pass
    if rc < 0 or any(x in text for x in NOT_VIOLATION):
        problems.append("a shard was ended (%d): %s" % (rc, text[-1000:]))
    elif "WARNING: DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        failures.append("data race\n" + text[i:i + 6000])
    elif "fatal error:" in text or "panic:" in text:
        i = min(x for x in (text.find("fatal error:"), text.find("panic:")) if x >= 0)
        if "github.com/jik18001/CTngV2" in text[i:]:
            failures.append("the process crashed\n" + text[i:i + 6000])
        else:
            problems.append("the harness crashed\n" + text[i:i + 3000])
    elif rc == 1:
        failures.append("the code ended the process; last line logged: " + last)
    else:
        problems.append("a shard ended with %d: %s" % (rc, text[-2000:]))
    return rep, failures, problems


def save_replay(pid, tier, s, failure, spec, scale):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    m = re.match(r"(Test\w+)", failure)
    test = m.group(1) if m else ""
    fail = ""
    for f in sorted(glob.glob(os.path.join(s["cwd"], "testdata", "rapid", test or "*", "*.fail"))):
        fail = open(f, errors="replace").read()
    body = {"property": pid, "tier": tier, "test": test, "seed": s["seed"], "scale": scale, "failure": failure, "rapid_failfile": fail}
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run(pid, tier, keep=False):
    spec = PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    env = goenv()
    tmp = tempfile.mkdtemp(prefix="ctng-%s-" % pid)
    code = 2
    try:
        binary = build(pid, tmp, env)
        shards = spec.get("shards", 8)
        scale = 1.0 if tier == "quick" else spec.get("thorough", 10)
        budget = spec.get("budget", 100) if tier == "quick" else spec.get("thorough_budget", 400)
        limit = 840 if tier == "quick" else 3000
        running = []
        for i in range(shards):
            sd = (seed * 1000003 + i * 7919 + 1) & 0x7fffffff or 1
            running.append(start(spec, binary, tmp, i, sd, spec.get("tests", "^Test" + pid), scale, budget, env))
        total = {"evaluations": 0, "skipped": 0, "classes": {}, "samples": []}
        keys, failures, problems = set(), [], []
        # a failure that a shard found (and shrank) decides the check: the
        # other shards get a minute more
        end, judged = t0 + limit, {}
        while len(judged) < len(running):
            for s in running:
                if s["i"] in judged:
                    continue
                if s["p"].poll() is not None:
                    judged[s["i"]] = judge(s)
                    if judged[s["i"]][1]:
                        end = min(end, time.time() + 60)
                elif time.time() > end:
                    s["p"].kill()
                    s["p"].wait()
                    s["log"].close()
                    judged[s["i"]] = ({}, [], ["shard %d did not end in time" % s["i"]])
            time.sleep(0.1)
        for s in running:
            rep, fs, ps = judged[s["i"]]
            total["evaluations"] += rep.get("evaluations", 0)
            total["skipped"] += rep.get("skipped", 0)
            keys.update(rep.get("nontrivial") or [])
            for k, v in (rep.get("classes") or {}).items():
                total["classes"][k] = total["classes"].get(k, 0) + v
            total["samples"] += rep.get("samples") or []
            failures += [(s, f) for f in fs]
            problems += ps
        kf = known(pid)
        new = [(s, f) for s, f in failures if not any(r.search(f) for r, _ in kf)]
        for _, text in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        total["samples"].sort(key=len, reverse=True)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
              "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": len(keys), "rule": spec["rule"],
                           "samples": total["samples"][:6], "classes": total["classes"], "skipped_for_time": total["skipped"], "shards": shards},
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d distinct non-trivial, %d skipped, %.1f s" % (pid, tier, total["evaluations"], len(keys), total["skipped"], time.time() - t0))
        if new:
            # the shortest failure first: shards shrink independently
            new.sort(key=lambda x: len(x[1]))
            for s, f in new[:2]:
                path = save_replay(pid, tier, s, f, spec, scale)
                print("failure (shard %d):\n%s" % (s["i"], f[:3000]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            code = 1
        elif problems:
            print("no answer:\n" + "\n".join(p[:3000] for p in problems[:3]))
            code = 2
        elif not total["evaluations"]:
            print("no case was run")
            code = 2
        else:
            code = 0
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    return code


def replay(path):
    body = json.load(open(path))
    pid = body["property"]
    spec = PROPS[pid]
    env = goenv()
    tmp = tempfile.mkdtemp(prefix="ctng-replay-")
    try:
        binary = build(pid, tmp, env)
        extra = []
        if body["rapid_failfile"]:
            ff = os.path.join(tmp, "case.fail")
            open(ff, "w").write(body["rapid_failfile"])
            extra = ["-rapid.failfile", ff]
        tests = "^%s$" % body["test"] if body["test"] else "^Test" + pid
        s = start(spec, binary, tmp, 0, body["seed"], tests, body["scale"] if not extra else 0.001, 600, env, extra)
        s["p"].wait()
        _, failures, problems = judge(s)
        for f in failures:
            print(f)
        for p in problems:
            print("problem:", p)
        print("reproduced" if failures else "not reproduced")
        return 1 if failures else (2 if problems else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(a):
    if a[:1] == ["--setup"]:
        env = goenv()
        tmp = tempfile.mkdtemp(prefix="ctng-setup-")
        for race in (False, True):
            pid = next((p for p in PROPS if bool(PROPS[p].get("race")) == race), None)
            if pid:
                build(pid, tmp, env)
        shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    return run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"), "--keep" in a)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
