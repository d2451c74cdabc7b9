#!/usr/bin/env python3
"""seed.py ID [PROP...] - confirm a planted bug of /verif/seeded and run checks against it.

In a scratch copy of /repo: the patch applies, builds, passes the stable tests; demo.sh
passes without it and fails with it; then the given checks (default: the property of
meta.json) run against the copy (VERIF_REPO).  --fast skips tests and demo."""
import json, os, shutil, subprocess, sys, tempfile, time

args = [a for a in sys.argv[1:] if not a.startswith("--")]
fast = "--fast" in sys.argv
nocheck = "--nocheck" in sys.argv
bug, props = args[0], args[1:]
src = "/verif/seeded/" + bug
meta = json.load(open(src + "/meta.json"))
props = props or [meta["property"]]
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=kw.pop("env", env), text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


tmp = tempfile.mkdtemp(prefix="seed-")
try:
    repo = tmp + "/repo"
    sh("cp -a /repo " + repo, "/")
    demo = tmp + "/d"
    os.mkdir(demo)
    for f in os.listdir(src):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(src + "/" + f, demo)
    if not fast:
        t = time.time()
        r = sh("bash %s/demo.sh" % demo, repo)
        print(bug, "demo unchanged:", r.returncode, "%.0fs" % (time.time() - t), "" if r.returncode == 0 else "BAD\n" + r.stdout[-2000:])
    r = sh("git apply %s/patch.diff" % src, repo)
    if r.returncode:
        sys.exit("%s: patch does not apply: %s" % (bug, r.stdout))
    r = sh("go build ./... && go vet ./shamir ./krawczyk ./csprng ./utils ./worker 2>&1 | tail -3", repo)
    print(bug, "build:", r.returncode, r.stdout[-300:].strip())
    if not fast:
        t = time.time()
        r = sh("bash %s/demo.sh" % demo, repo)
        print(bug, "demo patched:", r.returncode, "%.0fs" % (time.time() - t), "BAD" if r.returncode == 0 else r.stdout[-400:])
        r = sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vx github.com/fadhilkurnia/shamir)", repo)
        ok = set()
        for l in r.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("Action") == "pass" and d.get("Test"):
                ok.add(d["Package"] + "/" + d["Test"])
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
        print(bug, "tests:", "ok" if not miss else "BAD failed %s" % sorted(miss))
    for p in [] if nocheck else props:
        t = time.time()
        r = sh("python3 check.py %s" % p, os.environ.get("VERIF_HOME", "/verif"), env=dict(env, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(bug, p, "rc=%d %.0fs" % (r.returncode, time.time() - t), "CAUGHT" if r.returncode == 1 and any("property=%s " % p in l for l in v) else "MISSED", (v or [r.stdout[-300:]])[0][:200])
finally:
    shutil.rmtree(tmp)
