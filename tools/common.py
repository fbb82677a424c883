"""Shared machinery of the checks: build, run TLC, run the harness, judge."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VREPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
GOBIN = "/opt/veriftools/go1.27.3/bin"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

class ToolError(Exception):
    pass

def goenv():
    e = dict(os.environ)
    if os.path.isdir(GOBIN):
        e["PATH"] = GOBIN + ":" + e["PATH"]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    e.pop("GOLEDGER_CONF", None)
    return e

class Work:
    """A scratch directory that is removed at the end."""
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % name)
    def path(self, *p):
        return os.path.join(self.dir, *p)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def run(cmd, timeout=600, cwd=None, env=None, stdin=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

def classes(work):
    d = work.path("classes")
    if not os.path.isdir(d):
        os.mkdir(d)
        src = os.path.join(VERIF, "spec", "java")
        rc, o, e = run(["javac", "-nowarn", "-cp", JAR, "-d", d] +
                       [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")])
        if rc:
            raise ToolError("javac: " + e)
    return d

def build_harness(work, name):
    out = work.path(name)
    hd = os.path.join(VERIF, "harness")
    if REPO != "/repo":      # checking a scratch copy (development only)
        h2 = work.path("hsrc")
        if not os.path.isdir(h2):
            shutil.copytree(hd, h2)
            gm = open(os.path.join(h2, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(h2, "go.mod"), "w").write(gm)
        hd = h2
    rc, o, e = run(["go", "build", "-o", out, "./" + name], cwd=hd, env=goenv())
    if rc:
        raise ToolError("building harness %s: %s" % (name, e))
    return out

def build_program(work):
    out = work.path("goledger")
    if not os.path.exists(out):
        rc, o, e = run(["go", "build", "-o", out, "."], cwd=REPO, env=goenv())
        if rc:
            raise ToolError("building goledger: " + e)
    return out

def build_tracer(work):
    out = work.path("vtrace")
    if not os.path.exists(out):
        rc, o, e = run(["gcc", "-O2", "-o", out, os.path.join(VERIF, "tools", "vtrace.c")])
        if rc:
            raise ToolError("building vtrace: " + e)
    return out

class TLCResult:
    pass

def tlc(work, spec, cfg, env=None, timeout=600, workers=8, heap="8g"):
    """Run TLC on spec/<spec>.tla with spec/<cfg>; returns states, prints, errors."""
    sd = os.path.join(VERIF, "spec")
    md = tempfile.mkdtemp(prefix="md", dir=work.dir)
    e = dict(os.environ)
    e.update(env or {})
    cp = ":".join([classes(work), JAR, CM])
    cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VOverrides",
           "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(sd, cfg), os.path.join(sd, spec + ".tla")]
    t0 = time.time()
    try:
        rc, out, err = run(cmd, timeout=timeout, cwd=work.dir, env=e)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TLCResult()
    r.rc, r.out, r.err, r.secs = rc, out, err, time.time() - t0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m.group(1)) if m else 0
    r.ok = rc == 0 and "No error has been found" in out
    r.invariant = re.search(r"Invariant (\S+) is violated", out)
    return r

def load(path):
    return [json.loads(l) for l in open(path, encoding="utf-8", errors="surrogateescape")]

def dump(path, scs):
    with open(path, "w") as f:
        for s in scs:
            f.write(json.dumps(s, ensure_ascii=True) + "\n")
