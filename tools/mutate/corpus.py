"""Development aid: collect the executions every quick check judges (MUT=/tmp/mb), for run.py."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import runner, checks
OUT = os.environ.get("MUT", "/tmp/mb")
class Rec(runner.Run):
    k = 0
    def validate(self, spec, cfg, traces, name):
        shutil.copy(traces, "%s/%s-%02d-%s-%s.ndjson" % (OUT, self.pid, self.k, spec, name))
        self.k += 1
    def finish(self):
        self.work.close()
for p in sys.argv[1:] or sorted(checks.CHECKS):
    c = checks.CHECKS[p]
    r = Rec(p, c, "quick")
    c["run"](r)
    r.finish()
    print(p, r.k, flush=True)
