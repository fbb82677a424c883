---------------------------- MODULE TraceDeliver -----------------------------
(* Validation of recorded runs under faults against Deliver.tla.              *)
EXTENDS Deliver, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES i, sc,
          may,  \* the states the configuration may be in
          size  \* how much there is to show
vars == <<i, sc, may, size>>
Init == i = 0 /\ sc \in 1..Len(Trace) /\ may = Confs /\ size = [c \in Confs |-> 0]
Ev == Trace[sc].ev[i + 1]
Has(o, f) == f \in DOMAIN o
View(o) == Calls(Shown0, o.xs, 1)
Sane(o) == (IF o.crash # "" THEN {"crash: " \o o.crash} ELSE {}) \cup (IF o.hung THEN {"hung"} ELSE {})
\* another run that happened while this one waited: it started with the configuration seen then,
\* and this one may have found what that one left
Other(o) == IF Has(o, "other") THEN {"meanwhile: " \o x : x \in Sane(o.other) \cup RunFaults(ConfAfter(o.other.start), View(o.other), size, o.other)} ELSE {}
Start(o) == IF Has(o, "other") THEN may \cup ConfAfter(o.other.conf) ELSE may
\* "alone": only what else was changed is judged
Faults(e) ==
  IF Has(e.o, "panic") THEN {"driver: " \o e.o.panic}
  ELSE IF e.op = "cmd" THEN (IF e.o.why # "" THEN {"without faults: " \o e.o.why} ELSE {})
  ELSE IF Has(Trace[sc].ev[1], "chk") THEN Touched(may, Trace[sc].ev[1].cmd, e.o.changed)
  ELSE Sane(e.o) \cup Other(e.o) \cup RunFaults(Start(e.o), View(e.o), size, e.o)
Next == /\ i < Len(Trace[sc].ev)
        /\ LET e == Ev fs == Faults(e) IN
           IF fs # {} THEN /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o SJoin(SetToSeq(fs), "&&"))
                           /\ i' = Len(Trace[sc].ev) + 1 /\ UNCHANGED <<may, size>>
           ELSE /\ i' = i + 1
                /\ may' = IF e.op = "cmd" THEN {e.conf} ELSE ConfAfter(e.o.conf)
                /\ size' = IF e.op = "cmd" THEN [c \in Confs |-> IF c = "whole" THEN e.o.whole ELSE e.o.none] ELSE size
        /\ sc' = sc
Spec == Init /\ [][Next]_vars
Known == may # {} /\ may \subseteq Confs
=============================================================================
