"""Runs one check: model checking of the specification, conformance of the
implementation to it (replay of specification behaviours and validation of
recorded executions), verdict, evidence."""
import collections, hashlib, json, os, re, shutil, subprocess, sys, time
from common import *

EVID = os.path.join(VERIF, "evidence")

class Violation(Exception):
    pass

class Run:
    def __init__(self, pid, chk, tier):
        self.pid, self.chk, self.tier = pid, chk, tier
        self.work = Work(pid)
        self.t0 = time.time()
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.ops = collections.Counter()
        self.violations = []
        self.seen = set()
        self.known = known_findings(pid)
        self.known_hit = {}
        self.notes = []
        self.mc = []
        self.outcomes = collections.Counter()

    # ---------------------------------------------------------------- model
    def model(self, spec, cfg, env=None, timeout=600, want_programs=False):
        r = tlc(self.work, spec, cfg, env=env, timeout=timeout)
        if not r.ok:
            raise ToolError("model %s/%s: %s\n%s" % (spec, cfg, brief(r.out)[-3000:], r.err[-1000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.mc.append({"module": spec, "config": cfg, "distinct_states": r.distinct, "states_generated": r.generated,
                        "depth": r.depth, "seconds": round(r.secs, 1)})
        progs = []
        if want_programs:
            for l in r.out.splitlines():
                if l.startswith('"@@PROG '):
                    progs.append(json.loads(json.loads(l)[7:]))
            uniq = {}
            for p in progs:
                uniq[json.dumps(p, sort_keys=True)] = p
            progs = [uniq[k] for k in sorted(uniq)]
            if not progs:
                raise ToolError("model %s/%s printed no behaviours" % (spec, cfg))
            self.mc[-1]["behaviours"] = len(progs)
        return progs

    # -------------------------------------------------------------- driving
    def harness(self, name):
        h = self.work.path(name)
        return h if os.path.exists(h) else build_harness(self.work, name)

    def henv(self):
        e = goenv()
        e["VWORK"] = self.work.dir
        e["LANG"] = "C.UTF-8"
        e["TZ"] = "UTC"
        e["HOME"] = self.work.dir
        e["VREPO"] = REPO
        if self.chk.get("program"):
            e["VPROG"] = build_program(self.work)
        if self.chk.get("tracer"):
            e["VTRACER"] = build_tracer(self.work)
        return e

    def drive(self, name, args, out, timeout=800):
        """Run a driver over all scenarios; a crash or hang of the program under
        test becomes the last observation of its scenario."""
        h = self.harness(name)
        frm, crashes = 0, 0
        while True:
            cmd = [h] + args + ["-out", out, "-from", str(frm)]
            rc, o, e = run(cmd, timeout=timeout, env=self.henv(), cwd=self.work.dir)
            if rc == 0:
                return
            at = out + ".at"
            if rc == 3 or not os.path.exists(at):
                raise ToolError("driver %s failed: rc=%d %s" % (name, rc, e[-2000:]))
            k, s = open(at).read().split("\n")[:2]
            s = json.loads(s)
            what = "hang" if rc == 78 else "abort: " + first_line(e)
            # make sure the driver's own position is not at fault: execute it alone
            solo = self.work.path("solo.ndjson")
            dump(solo, [s])
            if os.path.exists(solo + ".at"):
                os.unlink(solo + ".at")
            rc2, o2, e2 = run([h, "-replay", solo, "-out", solo + ".o"], timeout=200, env=self.henv(), cwd=self.work.dir)
            if rc2 == 0:
                if what == "hang":
                    raise ToolError("driver %s slow on scenario %s" % (name, s["id"]))
                raise ToolError("driver %s aborted once: %s" % (name, e[-2000:]))
            what = "hang" if rc2 == 78 else "abort: " + first_line(e2)
            ev = s["ev"]
            for x in ev:
                x.pop("o", None)
            self.crashed(name, s, what)
            crashes += 1
            frm = int(k) + 1
            if crashes >= 5:
                self.notes.append("stopped driving after %d crashes" % crashes)
                return

    def crashed(self, name, s, what):
        self.report(name, s, 0, "program", [what])

    def validate(self, spec, cfg, traces, name):
        """Check recorded executions against the specification."""
        env = {"VTRACE": traces}
        scs = load(traces)
        if not scs:
            return
        r = tlc(self.work, spec, cfg, env=env, timeout=850)
        expect = sum(len(s["ev"]) + 1 for s in scs)
        mm = mismatches(r.out)
        spec_faults = [l for l in r.out.splitlines() if l.startswith('"@@SPEC ')]
        if spec_faults:
            raise ToolError("the generator and the specification disagree on a scenario: " + spec_faults[0])
        for l in set(l for l in r.out.splitlines() if l.startswith('"@@SKIP ')):
            sid, n, why = json.loads(l)[7:].split("|")
            expect -= int(n)
            self.outcomes["not judged further: " + why] += 1
        for s in scs:
            for e in s["ev"]:
                self.ops[e["op"]] += 1
                o = e.get("o", {})
                self.outcomes["crash" if "panic" in o else "refused" if "err" in o else "done"] += 1
        if not mm:
            if not r.ok or r.distinct != expect:
                raise ToolError("validation %s: ok=%s distinct=%d expected=%d\n%s\n%s" %
                                (spec, r.ok, r.distinct, expect, brief(r.out)[-3000:], r.err[-2000:]))
        self.cov["traces_validated_against_impl"] += len(scs)
        self.cov["trace_states"] = self.cov.get("trace_states", 0) + r.distinct
        byid = {s["id"]: s for s in scs}
        if len(byid) != len(scs):
            raise ToolError("scenario ids are not unique")
        for (sid, step, op, faults) in mm:
            self.report(name, byid[sid], step, op, faults, spec, cfg)
        self.sample(scs)
        if r.invariant and not mm:
            raise ToolError("model invariant violated during validation:\n" + r.out[-3000:])

    def sample(self, scs):
        if len(self.cov["samples"]) < 3:
            small = sorted(scs, key=lambda s: len(json.dumps(s)))
            small = [s for s in small if len(s["ev"]) >= 2] or small
            pick = small[len(small) // 3]
            t = json.dumps(pick, ensure_ascii=False)
            self.cov["samples"].append(pick if len(t) < 6000 else t[:6000])

    # --------------------------------------------------------------- verdict
    def report(self, name, s, step, op, faults, spec=None, cfg=None):
        if self.chk.get("ops") and op not in self.chk["ops"] and op not in ("program", "build"):
            pass
        sig = (op, tuple(sorted(re.sub(r"[0-9]+", "#", f)[:60] for f in faults)))
        for kf in self.known:
            if kf["re"].search("%s|%s|%s" % (s["id"], op, ";".join(faults))):
                self.known_hit[kf["key"]] = kf
                return
        if sig in self.seen or len(self.violations) >= 8:
            return
        self.seen.add(sig)
        # execute the scenario again in a fresh process and judge it again
        note = ""
        if spec:
            rep = self.work.path("rep.ndjson")
            dump(rep, [s])
            again = False
            tries = 3
            for i in range(tries):
                rc, o, e = run([self.harness(name), "-replay", rep, "-out", rep + ".o"], timeout=300, env=self.henv(), cwd=self.work.dir)
                if rc != 0:
                    again = True
                    note = "re-execution ended with status %d" % rc
                    break
                r = tlc(self.work, spec, cfg, env={"VTRACE": rep + ".o"}, timeout=300)
                if mismatches(r.out):
                    again = True
                    s = load(rep + ".o")[0]
                    break
            if not again:
                note = "seen in the recorded execution, not on %d re-executions (not deterministic)" % tries
        d = os.path.join(EVID, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "v%d.ndjson" % (len(self.violations) + 1))
        dump(p, [s])
        self.violations.append({"scenario": s["id"], "step": step, "op": op, "faults": faults, "replay": p, "note": note})
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  scenario %s step %d (%s): %s %s" % (s["id"], step, op, "; ".join(faults)[:600], note))
        sys.stdout.flush()

    def finish(self):
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        c = self.cov
        c["operations_observed"] = dict(sorted(self.ops.items()))
        c["outcomes_observed"] = dict(sorted(self.outcomes.items()))
        c["models"] = self.mc
        if self.notes:
            c["notes"] = self.notes
        lvl = self.chk.get("level", "model_checking")
        c["explanation"] = self.chk["what"]
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": lvl, "coverage": c,
              "assumptions": self.chk.get("assume", []), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        t = json.dumps(ev, ensure_ascii=False)
        if len(t.encode("utf-8", "replace")) > 60000:
            c["samples"] = [json.dumps(x, ensure_ascii=False)[:3000] for x in c["samples"]]
            t = json.dumps(ev, ensure_ascii=False)
        with open(os.path.join(EVID, self.pid + ".json"), "w", errors="replace") as f:
            f.write(t + "\n")
        self.work.close()
        if self.violations:
            return 1
        print("OK property=%s %d model states, %d executions validated, %.1f s" %
              (self.pid, c["states"], c["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def brief(out):
    return "\n".join(l for l in out.splitlines() if l.strip() and not re.match(r"(Parsing file|Semantic processing|Progress|\"@@)", l))

def first_line(e):
    for l in e.splitlines():
        l = l.strip()
        if l:
            return l[:300]
    return "?"

def mismatches(out):
    mm = []
    for l in out.splitlines():
        if l.startswith('"@@MM '):
            t = json.loads(l)[5:]
            sid, step, op, faults = t.split("|", 3)
            mm.append((sid, int(step), op, faults.split("&&")))
    return mm

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=/(.*?)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "re": re.compile(m.group(2)), "what": m.group(3)})
    return out

def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    chk = checks[a.pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    r = Run(a.pid, chk, tier)
    try:
        if a.replay:
            replay(r, chk, a.replay)
        else:
            shutil.rmtree(os.path.join(EVID, "replay", a.pid), ignore_errors=True)
            chk["run"](r)
        rc = r.finish()
    except (ToolError, subprocess.TimeoutExpired) as e:
        r.work.close()
        if r.violations:          # already shown on the real code
            sys.exit(1)
        print("ERROR property=%s %s" % (a.pid, e), file=sys.stderr)
        sys.exit(2)
    sys.exit(rc)

def replay(r, chk, path):
    """A scenario is executed by the drivers that know its steps."""
    done, err, path = 0, None, os.path.abspath(path)
    for spec, cfg, name in chk["judges"]:
        out = r.work.path("r.ndjson")
        try:
            r.drive(name, ["-replay", path], out)
            if "unknown event" in open(out, errors="replace").read():
                continue
            r.validate(spec, cfg, out, name)
            done += 1
        except ToolError as e:
            err = e
    if not done:
        raise err or ToolError("no driver knows the steps of " + path)
