------------------------------ MODULE TraceSync ------------------------------
(* Validation of recorded synchronisations: what `goledger download` left in  *)
(* its state file after each run against a bank, against Sync.tla; for runs   *)
(* with recorded file operations also every crash point, against Store.tla.   *)
EXTENDS Sync, Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES i, sc,
          bnk,   \* the bank
          st,    \* what the state file is to hold
          tok,   \* the token in it (Monzo)
          there, \* whether there is a state file
          broken \* whether it was damaged
vars == <<i, sc, bnk, st, tok, there, broken>>
Init == /\ i = 0 /\ sc \in 1..Len(Trace)
        /\ bnk = [kind |-> "none"] /\ st = EmptyState /\ tok = 0 /\ there = FALSE /\ broken = FALSE
Ev == Trace[sc].ev[i + 1]
Has(o, f) == f \in DOMAIN o
Kind == Trace[sc].ev[1].kind

\* what is on the file now, whatever happened
Sane(o) == (IF o.file = "bad" THEN {"state-file-unreadable"} ELSE {}) \cup (IF o.hung THEN {"hung"} ELSE {})
           \cup (IF o.crash # "" THEN {"crash: " \o o.crash} ELSE {})
Kept(o, why) == LET new == StateOf(o.state) IN
  UNION {{"lost " \o k \o why : k \in DOMAIN st \ DOMAIN new},
         {"changed " \o k \o why : k \in {x \in DOMAIN new : x \notin DOMAIN st \/ new[x].v # st[x].v}}}
LastToken(o) == IF Kind = "monzo" /\ o.token # o.issued /\ o.token > 0 THEN {"token-lost"} ELSE {}

SyncFaults(e) ==
  LET o == e.o
      hard == o.hit /\ o.soft = ""
      all == Has(e, "all") /\ e.all
  IN IF o.crash # "" \/ o.hung THEN Sane(o)
     ELSE IF broken THEN (IF o.ok THEN {"damaged-state-accepted"} ELSE {}) \cup (IF ~o.same THEN {"damaged-state-overwritten"} ELSE {})
     ELSE Sane(o) \cup
     (IF o.ok THEN (IF hard THEN {"failure-not-reported"} ELSE {}) \cup LastToken(o)
                   \cup MergeFaults(st, Gives(bnk, st, all, o.soft), StateOf(o.state))
      ELSE (IF hard THEN {} ELSE {"failed: " \o o.why}) \cup Kept(o, " by a failed run")
           \* a new token replaces the one it was refreshed from, which is void
           \cup (IF Kind = "monzo" THEN LastToken(o) ELSE {}))
\* a run under vtrace: some file operation failed, or the program died
Twice(e) == e.two \/ (Kind = "monzo" /\ e.o.refreshed)
SaveFaults(e) ==
  LET o == e.o
      new == StateOf(o.state)
      gives == Gives(bnk, st, FALSE, "")
      isnew == Merged(st, gives, new)
      isold == Kept(o, "") = {}
      dead == e.act \in {"kill", "killafter"}
      \* (two saves in one run, or operations that do not explain the file: only what was seen)
      crash == IF Twice(e) \/ ~Explained(o) THEN {} ELSE CrashFaults(o)
  IN IF o.crash # "" \/ o.hung THEN Sane(o)
     ELSE (IF o.file = "bad" THEN {"torn"} ELSE IF ~isnew /\ ~isold THEN {"neither-old-nor-new"}
           ELSE IF ~there /\ o.file = "ok" /\ ~isnew THEN {"neither-old-nor-new"} ELSE {})
          \cup (IF o.ok /\ ~isnew THEN {"failure-not-reported"} ELSE {})
          \cup (IF o.ok /\ o.file # "ok" THEN {"nothing-saved"} ELSE {})
          \cup (IF ~o.ok /\ e.n = 0 THEN {"failed: " \o o.why} ELSE {})
          \cup crash
LoginFaults(e) ==
  LET o == e.o IN
  Sane(o) \cup Kept(o, " by the login") \cup (IF ~o.asked THEN {"no-login-asked"} ELSE {})
  \cup (IF e.answer = "right" /\ o.issued > 1
        THEN (IF o.file # "ok" \/ o.token # o.issued THEN {"token-lost"} ELSE {})
        ELSE (IF o.token # 0 THEN {"token-from-nowhere"} ELSE {}) \cup (IF o.ok THEN {"failure-not-reported"} ELSE {}))
InitFaults(e) ==
  LET o == e.o
      good == e.pick \in {SOfInt(n) : n \in 0..(bnk.insts - 1)}
      want == ("institution" :> [v |-> IF good THEN CHOOSE n \in 0..(bnk.insts - 1) : SOfInt(n) = e.pick ELSE 0, t |-> 0, g |-> ""])
              @@ ("requisition" :> [v |-> bnk.req, t |-> 0, g |-> ""])
      hard == o.hit
  IN Sane(o) \cup
     (IF o.crash # "" \/ o.hung THEN {}
      ELSE IF o.ok THEN (IF ~good \/ hard THEN {"failure-not-reported"} ELSE {})
                        \cup (IF Versions(StateOf(o.state)) # Versions(want) THEN {"institution-not-kept"} ELSE {})
      ELSE (IF good /\ ~hard THEN {"failed: " \o o.why} ELSE {}) \cup Kept(o, " by a failed run"))

Faults(e) == IF Has(e.o, "panic") THEN {"driver: " \o e.o.panic}
             ELSE CASE e.op = "sync" -> SyncFaults(e) [] e.op = "save" -> SaveFaults(e)
                    [] e.op = "login" -> LoginFaults(e) [] e.op = "init" -> InitFaults(e)
                    [] OTHER -> {}
After(e) == IF e.op \in {"sync", "save", "login", "init", "file"} \/ (e.op = "spoil" /\ e.how = "undo") THEN StateOf(e.o.state) ELSE st
Shown(fs) == LET s == SetToSeq(fs) IN SJoin(IF Len(s) > 6 THEN SubSeq(s, 1, 6) ELSE s, "&&")
Next == /\ i < Len(Trace[sc].ev)
        /\ Ev.op = "save" /\ ~Has(Ev.o, "panic") /\ ~Twice(Ev) /\ ~Explained(Ev.o) => PrintT("@@NOTE " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|the file operations do not explain the file")
        /\ LET e == Ev fs == Faults(e) IN
           IF fs # {} THEN /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o Shown(fs))
                           /\ i' = Len(Trace[sc].ev) + 1 /\ UNCHANGED <<bnk, st, tok, there, broken>>
           ELSE /\ i' = i + 1
                /\ bnk' = IF e.op = "bank" THEN e ELSE bnk
                /\ st' = IF broken THEN (IF e.op = "spoil" THEN After(e) ELSE st) ELSE After(e)
                /\ tok' = IF Has(e.o, "token") THEN e.o.token ELSE tok
                /\ there' = IF Has(e.o, "file") THEN e.o.file # "none" ELSE there
                /\ broken' = IF e.op = "spoil" THEN e.how # "undo" ELSE broken
        /\ sc' = sc
Spec == Init /\ [][Next]_vars
\* what is held is always something the bank told
Told == \A k \in DOMAIN st : st[k].v # -1
=============================================================================
