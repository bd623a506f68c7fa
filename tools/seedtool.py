#!/usr/bin/env python3
"""Makes and confirms planted changes (seeded/<id>).

  seedtool.py make SPEC.py...   SPEC holds EDITS [(file, old, new)], META, DEMO (Go test source without package/imports)
  seedtool.py confirm ID...     builds, runs the stable tests and the demonstration with and without the change (in parallel)
  seedtool.py check ID...       applies the change to /repo, runs the check of its property, undoes it

Scratch copies live under /tmp/seedwork.
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **kw)


def copy(name):
    d = "%s/%s/repo" % (W, name)
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    os.makedirs(os.path.dirname(d))
    sh("cp -a /repo %s && cd %s && git checkout -q -- . && git clean -fdq" % (d, d))
    return d


def make(spec):
    env = {}
    exec(open(spec).read(), env)
    sid = os.path.basename(spec)[:-3]
    d = copy("make-" + sid)
    for f, old, new in env["EDITS"]:
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    files = " ".join(sorted(set(e[0] for e in env["EDITS"])))
    sh("cd %s && gofmt -w %s" % (d, files))
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    diff = sh("cd %s && git diff" % d).stdout
    open(out + "/patch.diff", "w").write(diff)
    json.dump(env["META"], open(out + "/meta.json", "w"), indent=1)
    lib = sh("python3 %s/tools/mklib.py | gofmt" % V).stdout
    open(out + "/lib_test.go", "w").write(lib)
    shutil.copy(V + "/tools/demo.sh", out + "/demo.sh")
    os.chmod(out + "/demo.sh", 0o755)
    keys = open(V + "/harness/testdata/rsa_keys.pem").read().split("-----END RSA PRIVATE KEY-----\n")
    open(out + "/rsa_keys.pem", "w").write("".join(k + "-----END RSA PRIVATE KEY-----\n" for k in keys[:16]))
    os.makedirs(d + "/zz_demo")
    open(d + "/zz_demo/demo_test.go", "w").write("//go:build go1.25\n\npackage demo\n\n" + env["DEMO"].strip() + "\n")
    open(d + "/zz_demo/lib_test.go", "w").write(lib)
    r = sh(". /opt/vp/env.sh; cd %s && goimports -w zz_demo/demo_test.go" % d)
    if r.returncode:
        print(sid, r.stderr)
    shutil.copy(d + "/zz_demo/demo_test.go", out)
    r = sh("cd %s && git checkout -q . && rm -r zz_demo && bash %s/demo.sh" % (d, out), cwd=d)
    clean = r.returncode
    cleantext = r.stdout + r.stderr
    r = sh("cd %s && git apply %s/patch.diff && . /opt/vp/env.sh && go build -buildvcs=false ./... && go vet ./... 2>&1 | head -0; bash %s/demo.sh" % (d, out, out))
    print("%s: demo clean=%d patched=%d" % (sid, clean, r.returncode))
    if clean:
        print(cleantext[-3000:])
    print("  patched: " + "\n  ".join((r.stdout + r.stderr).strip().split("\n")[-8:])[:1500])
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def confirm(sid):
    d = copy("conf-" + sid)
    base = os.path.dirname(d)
    r = sh("cd %s && git apply %s/seeded/%s/patch.diff" % (d, V, sid))
    if r.returncode:
        return sid, "patch does not apply: " + r.stderr
    for f in ("test.sh", "build.sh", "in_copy.sh"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/work", base + "/work").replace("/opt/vp/in_copy.sh", base + "/in_copy.sh").replace("/repo", d)
        s = s.replace("; pkill -9 -x ctng_sim", "")
        open(base + "/" + f, "w").write(s)
    r = sh("bash %s/build.sh" % base)
    if r.returncode:
        return sid, "does not build: " + r.stderr[-500:]
    r = subprocess.run(["unshare", "-Urn", "bash", "-c", "ip link set lo up; bash %s/test.sh %s/out.json" % (base, base)], capture_output=True, text=True)
    try:
        res = json.load(open(base + "/out.json"))
    except Exception as e:
        return sid, "no result: %s %s" % (e, r.stderr[-500:])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in stable if t not in res.get("passed", [])]
    shutil.rmtree(base, ignore_errors=True)
    return sid, "stable tests pass" if not bad else "FAILED tests: %s" % bad


def check(sid, tier="quick"):
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, sid)))
    sh("git -C /repo checkout -- .")
    r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, sid))
    if r.returncode:
        return sid, meta["property"], "patch does not apply"
    try:
        r = sh("cd %s && VERIF_SEED=${VERIF_SEED:-1} python3 check.py %s %s" % (V, meta["property"], tier))
    finally:
        sh("git -C /repo checkout -- .")
    lines = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "no answer")) or "cases," in l]
    fail = re.search(r"failure \(shard \d+\):\n(.{0,300})", r.stdout, re.S)
    return sid, meta["property"], "exit %d %s\n      %s" % (r.returncode, lines[:2], (fail.group(1) if fail else r.stdout[-300:]).replace("\n", " "))


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for a in args:
            make(a)
    elif cmd == "confirm":
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for r in ex.map(confirm, args):
                print(*r, flush=True)
    elif cmd == "check":
        for a in args:
            print(*check(a), flush=True)
