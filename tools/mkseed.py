"""seed(...) writes /verif/seeded/<id>/ and confirms it in a scratch copy."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO = '''#!/bin/bash
# exit 0 when the property holds for this scenario
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/%%s": "%%s/demo_test.go"}}' "$r" "%(tgt)s" "$d" > "$t/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestVerifDemo' %(race)s "./%(pkg)s"
'''
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def run_tests(d):
    r = sh("go test -json -vet=off -count=1 $(go list -e ./... | grep -vE '/strip/(caches|sessions)$') 2>/dev/null", d)
    ok = set()
    for l in r.stdout.splitlines():
        try: o = json.loads(l)
        except ValueError: continue
        if o.get("Action") == "pass" and o.get("Test"):
            ok.add(o["Package"] + "/" + o["Test"])
    return stable() - ok

def seed(id, prop, edits, pkg, test, needs, breaks, race=False, check=True):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        w = os.path.join(work, "r")
        subprocess.check_call(["cp", "-a", "/repo", w])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT", f, s.count(old)); return False
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo_test.go"), "w").write(test)
        tgt = (pkg + "/" if pkg else "") + "zz_verif_demo_test.go"
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"tgt": tgt, "pkg": pkg, "race": "-race" if race else ""})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh("go build ./...", w)
        if b.returncode: print(id, "BUILD", b.stdout); return False
        bad = run_tests(w)
        if bad: print(id, "TESTS", bad); return False
        r0 = sh([os.path.join(d, "demo.sh")], "/repo")
        if r0.returncode: print(id, "DEMO-CLEAN", r0.stdout[-3000:]); return False
        r1 = sh([os.path.join(d, "demo.sh")], w)
        if r1.returncode == 0 or "build failed" in r1.stdout: print(id, "DEMO-PATCHED", r1.stdout[-2000:]); return False
        caught = "?"
        if check and os.path.exists("/tmp/sc"):
            os.makedirs("/tmp/seedvr", exist_ok=True)
            c = subprocess.run(["/tmp/sc", prop], env=dict(ENV, REPO=w, VERIF_ROOT="/tmp/seedvr"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            caught = "caught" if c.returncode == 1 else "MISSED"
            if c.returncode == 1: caught += " " + c.stdout.strip().splitlines()[0][:160]
        print(id, "ok", caught)
        return True
    finally:
        shutil.rmtree(work)
