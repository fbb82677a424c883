"""Development aid: mutation testing of the checks.

MUT=/tmp/mb (filled by corpus.py; all.ndjson from gen). For each sampled mutant the recorded scenarios are executed
again on the mutated program (go build -overlay); those whose observations changed are judged by TLC.
usage: run.py N SEED [FILE-PREFIX...]   results are appended to MUT/results.ndjson"""
import collections, concurrent.futures, glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from common import *
from runner import mismatches
MUT = os.environ.get("MUT", "/tmp/mb")
PER = {"hbook": 220, "hload": 260, "hcli": 110, "hscript": 160, "hdl": 45, "hcal": 400}
SPEC = {"hbook": "TraceBook", "hload": "TraceLoad", "hcli": "TraceCli", "hscript": "TraceScript", "hdl": "TraceSync", "hcal": "TraceCal"}
def harnesses(f):
    if f == "book/date.go": return ["hcal", "hbook", "hload", "hcli"]
    if f.startswith("book/"): return ["hbook", "hload", "hcli"] + (["hscript"] if re.search("dedup|reclass|builder", f) else [])
    if f.startswith("loader/"): return ["hload", "hscript", "hcli"]
    if f.startswith("script/") or "import" in f or "generate" in f: return ["hscript", "hcli"]
    if f.startswith("cmd/download"): return ["hdl"]
    if f.startswith("cmd/utils"): return ["hdl", "hcli", "hscript"]
    if f == "cmd/root.go": return ["hcli", "hscript", "hdl"]
    return ["hcli", "hscript"] if f in ("cmd/app/book_op.go", "cmd/app/app.go", "cmd/config.go") else ["hcli"]

base = Work("mut")
def key(s):
    return json.dumps(s["ev"], sort_keys=True)
def lim():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
def env(w, prog):
    e = goenv()
    e.update(VWORK=w, LANG="C.UTF-8", TZ="UTC", HOME=w, VREPO=REPO, VPROG=prog, VTRACER=base.path("vtrace"))
    return e
def build(w, hs, overlay=None):
    o = ["-overlay", overlay] if overlay else []
    r = subprocess.run(["go", "build"] + o + ["-o", w + "/goledger", "."], cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: return False
    for h in hs:
        if h in ("hbook", "hload", "hcal"):
            r = subprocess.run(["go", "build"] + o + ["-o", w + "/" + h, "./" + h], cwd=os.path.join(VERIF, "harness"), env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: return False
    return True
def drive(w, h, inp, out):
    """every scenario's observation, or a word"""
    exe = w + "/" + h if os.path.exists(w + "/" + h) else base.path(h)
    try:
        r = subprocess.run([exe, "-replay", inp, "-out", out, "-limit", "15"], cwd=w, env=env(w, w + "/goledger"), timeout=240, preexec_fn=lim, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return "hang"
    return None if r.returncode == 0 else "crash"
CORP, REF = {}, {}
def prepare():
    build_tracer(base); classes(base)
    for h in PER: build_harness(base, h)
    if not build(base.dir, []): raise SystemExit("build")
    rnd = random.Random(7)
    for h in PER:
        scs = []
        for f in sorted(glob.glob(MUT + "/C*-%s.ndjson" % h)):
            l = load(f)
            n = PER[h] * (6 if "C09-01" in f else 1)
            tag = os.path.basename(f)[:6]
            for s in rnd.sample(l, min(len(l), n)):
                for e in s["ev"]: e.pop("o", None)
                s["id"] = tag + "/" + s["id"]
                scs.append(s)
        inp = base.path(h + ".in"); dump(inp, scs)
        a = base.path(h + ".1"); b = base.path(h + ".2")
        for x in (a, b):
            w = drive(base.dir, h, inp, x)
            if w: raise SystemExit("baseline %s %s" % (h, w))
        A, B = load(a), load(b)
        same = {x["id"] for x, y in zip(A, B) if key(x) == key(y)}
        print(h, len(scs), "scenarios,", len(scs) - len(same), "not repeatable", flush=True)
        dump(inp, [s for s in scs if s["id"] in same])
        CORP[h] = inp
        REF[h] = {x["id"]: hashlib.md5(key(x).encode()).digest() for x in A if x["id"] in same}
def mutant(m):
    w = tempfile.mkdtemp(prefix="m", dir=base.dir)
    try:
        src = open(REPO + "/" + m["file"], "rb").read()
        new = src[:m["from"]] + m["new"].encode() + src[m["to"]:]
        open(w + "/x.go", "wb").write(new)
        json.dump({"Replace": {REPO + "/" + m["file"]: w + "/x.go"}}, open(w + "/ov.json", "w"))
        hs = harnesses(m["file"])
        if not build(w, hs, w + "/ov.json"): return "nobuild", ""
        seen = 0
        for h in hs:
            out = w + "/out"
            bad = drive(w, h, CORP[h], out)
            if bad: return "killed", h + " " + bad
            diff = [s for s in load(out) if hashlib.md5(key(s).encode()).digest() != REF[h].get(s["id"])]
            seen += len(diff)
            if diff:
                by = collections.defaultdict(list)
                for s in diff: by[s["id"][:3]].append(s)
                pick = []
                for k in sorted(by): pick += by[k][:40]
                t = w + "/t.ndjson"; dump(t, pick)
                wk = Work.__new__(Work); wk.dir = w
                if not os.path.exists(w + "/classes"): os.symlink(base.path("classes"), w + "/classes")
                r = tlc(wk, SPEC[h], SPEC[h] + ".cfg", env={"VTRACE": t}, timeout=400, workers=3, heap="3g")
                mm = mismatches(r.out)
                if mm: return "killed", ",".join(sorted({x[0][:3] for x in mm}))
                if not r.ok and "@@" not in r.out: return "killed?", brief_err(r)
        return ("tolerated" if seen else "survived"), "%d differ" % seen
    except Exception as e:
        return "error", repr(e)[:200]
    finally:
        shutil.rmtree(w, ignore_errors=True)
def brief_err(r): return (r.out[-300:] + r.err[-200:]).replace("\n", " ")
def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    ms = [json.loads(l) for l in open(MUT + "/all.ndjson")]
    if sys.argv[3:]: ms = [m for m in ms if any(m["file"].startswith(p) for p in sys.argv[3:])]
    done = set()
    rf = MUT + "/results.ndjson"
    if os.path.exists(rf): done = {(x["file"], x["from"], x["new"], x["to"]) for x in load(rf)}
    ms = [m for m in ms if (m["file"], m["from"], m["new"], m["to"]) not in done]
    random.Random(seed).shuffle(ms)
    prepare()
    c = collections.Counter()
    with open(rf, "a") as f, concurrent.futures.ThreadPoolExecutor(4) as ex:
        fut = {}
        it = iter(ms)
        k = 0
        for m, res in ((m, ex.submit(mutant, m)) for m in ms[:n]):
            fut[res] = m
        for r in concurrent.futures.as_completed(fut):
            m = fut[r]; m["res"], m["by"] = r.result()
            f.write(json.dumps(m) + "\n"); f.flush()
            c[m["res"]] += 1; k += 1
            if k % 20 == 0: print(k, dict(c), flush=True)
    print(dict(c))
    base.close()
main()
