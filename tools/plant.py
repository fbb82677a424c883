"""Development aid: plant a bug in a scratch copy of /repo, confirm that it builds, passes the
tests, changes original lines only, and that its demonstration tells the two trees apart."""
import json, os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
GOTEST = '''#!/bin/bash
# runs the in-package test beside this file against the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd); root=$PWD; tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOLEDGER_CONF=
echo "{\\"Replace\\":{\\"$root/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/o.json"
cd "$root" && go test -count=1 -overlay "$tmp/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
SH = '''#!/bin/bash
# runs the program built from the tree in the current directory
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
go build -o "$tmp/gl" . || exit 2
cd "$tmp"; export GOLEDGER_CONF=$tmp/conf HOME=$tmp
gl() { timeout 60 "$tmp/gl" "$@"; }
printf '' > conf
same() { if [ "$1" != "$2" ]; then printf 'expected:\\n%%s\\ngot:\\n%%s\\n' "$2" "$1"; exit 1; fi; }
%(body)s
exit 0
'''
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def plant(id, prop, needs, breaks, edits, gotest=None, pkg="book", body=None, keep=True):
    wt = tempfile.mkdtemp(prefix="plant-")
    try:
        sh("cp -a /repo/. %s" % wt)
        for f, old, new in edits:
            t = open(os.path.join(wt, f)).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(os.path.join(wt, f), "w").write(t.replace(old, new))
        sh("git diff > /tmp/plant.diff", wt)
        diff = open("/tmp/plant.diff").read()
        # removed lines must be original
        bad = []
        for f in {e[0] for e in edits}:
            base = sh("git show c9fbb5a:%s" % f, wt)[1].splitlines()
            rc, d = sh("git diff -U0 %s" % f, wt)
            rem = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
            rc, bl = sh("git blame -s HEAD -- %s" % f, wt)
            new = {re.sub(r"^[^)]*\) ?", "", l) for l in bl.splitlines() if not l.startswith("^c9fbb5a") and not l.startswith("c9fbb5a")}
            for l in rem:
                if l in new and l.strip():
                    bad.append(l)
        if bad:
            print(id, "NOTE: changes lines of own commits:", bad)
        d = os.path.join("/verif/seeded", id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if gotest:
            open(os.path.join(d, "demo_test.go"), "w").write(gotest)
            open(os.path.join(d, "demo.sh"), "w").write(GOTEST % {"pkg": pkg})
        else:
            open(os.path.join(d, "demo.sh"), "w").write(SH % {"body": body})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = True
        rc, o = sh("go build ./ && go vet ./book ./loader >/dev/null 2>&1; go build -o /dev/null .", wt)
        if rc: print(id, "BUILD FAILS", o); ok = False
        rc, o = sh("go test ./book ./cmd/app 2>&1", wt)
        if rc: print(id, "TESTS FAIL", o[-800:]); ok = False
        sh("rm -f goledger", wt)
        rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], wt)
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        if rc1 == 0: print(id, "DEMO PASSES WITH PATCH", o1[-600:]); ok = False
        if rc0 != 0: print(id, "DEMO FAILS WITHOUT PATCH", o0[-1500:]); ok = False
        rc, o = sh("git status --short", "/repo")
        if o.strip(): print("REPO DIRTY", o); ok = False
        print(id, "planted" if ok else "NOT OK", "|", o1.strip().splitlines()[-3:] if ok else "")
        if not ok and not keep: shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(wt, ignore_errors=True)
