------------------------------- MODULE TraceCli -------------------------------
(* Validation of recorded runs of the built program: a scenario loads a ledger *)
(* (judged as in TraceLoad), puts configuration files in place and runs        *)
(* commands; each run's status and output are compared with Cli.tla's.         *)
EXTENDS Forms, Html, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES sc, i, bk, disk, seen
vars == <<sc, i, bk, disk, seen>>
Ev == Trace[sc].ev[i + 1]
Has(e, f) == f \in DOMAIN e
Chk(e, c) == \E n \in 1..Len(e.chk) : e.chk[n] = c

\* comparisons of one run
BookOf(st) == LET p == Resolve(<< >>, st.s["ledger"]) IN
  IF p \notin DOMAIN bk THEN [k |-> "bad"] ELSE bk[p]
RunFaults(st, e) ==
  LET o == e.o
      b == BookOf(st)
      out == IF e.cmd \notin Commands THEN Unclears ELSE IF st.k # "ok" THEN st ELSE IF b.k # "ok" THEN [k |-> b.k] ELSE Outcome(b.bk, e, st)
      ty == TypeOf(e, st)
      txt == TextOf(e, st, out)
      failed == o.rc # 0
      s == st.s
      want(c) == Chk(e, c)
      sections == o.secs
      style == IF ty = "html" THEN StyleOf(s, IF Has(e, "css") THEN e.css ELSE [f \in {} |-> ""]) ELSE [k |-> "own"]
  IN IF Has(o, "panic") THEN {"crash: " \o o.panic}
     ELSE IF out.k = "unclear" THEN {}
     ELSE IF out.k = "bad" \/ (ty = "text" /\ txt.k = "bad") \/ style.k = "bad" THEN IF ~failed /\ want("refuse") THEN {"accepted-invalid"} ELSE {}
     ELSE IF failed THEN {"failed: " \o o.err}
     ELSE CASE ty = "text" -> (IF want("term") /\ Has(e, "term") /\ [direct |-> o.out, paged |-> o.paged, rest |-> o.rest] # ShownOf(e, st, out, e.term) THEN {"terminal"} ELSE {})
                              \cup (IF want("screen") /\ o.out # txt.t THEN {"screen"} ELSE {})
                              \cup (IF want("entries") /\ SWords(o.out) # SWords(txt.t) THEN {"shown-entries"} ELSE {})
            [] ty = "json" /\ e.cmd = "accts" ->
                 IF ~(want("records") \/ want("entries")) THEN {} ELSE IF ~Has(o, "accts") THEN {"not-decodable"} ELSE IF o.accts # out.accts THEN {"records"} ELSE {}
            [] ty = "json" /\ e.cmd \in {"report", "export"} ->
                 IF ~want("records") THEN {} ELSE IF ~Has(o, "txns") THEN {"not-decodable"}
                 ELSE IF SameList(LAMBDA g, x : TransRec(g, x, Has(out, "sum") /\ out.sum), o.txns, out.rows) THEN {} ELSE {"records"}
            [] e.cmd = "register" ->
                 IF ~(want("records") \/ want("entries")) THEN {} ELSE IF ~Has(o, "secs") THEN {"not-decodable"}
                 ELSE IF Len(sections) # Len(out.secs) THEN {"sections"}
                 ELSE (IF \E n \in 1..Len(sections) : sections[n].acct # out.secs[n].acct THEN {"sections"} ELSE {})
                      \cup (IF \E n \in 1..Len(sections) : ~SameList(LAMBDA g, x : EntryRec(g, x, ty = "json"), sections[n].es, out.secs[n].es) THEN {"entries"} ELSE {})
                      \cup (IF want("records") /\ ty = "json" /\ \E n \in 1..Len(sections) : ~SameList(LAMBDA g, x : BaseOk(g, out.bk, x, s["ccy"]), sections[n].es, out.secs[n].es) THEN {"base"} ELSE {})
            [] ty = "csv" ->
                 IF ~want("records") THEN {} ELSE IF ~Has(o, "rows") THEN {"not-decodable"}
                 ELSE IF SameList(CsvRec, o.rows, FlatRows(out.rows)) THEN {} ELSE {"records"}
            [] ty = "ledger" -> IF ~want("ledger") \/ (e.cmd = "report" /\ out.sum) THEN {} ELSE LedgerFaults(out.bk, o.out, e.cmd = "export")
            [] ty = "beancount" ->
                 IF ~want("bean") THEN {} ELSE IF ~Has(o, "bean") THEN {"not-decodable: " \o o.oddbean}
                 ELSE BeanFaults(out.bk, o.bean, e.cmd = "export")
            [] ty = "html" ->
                 IF ~want("html") THEN {} ELSE IF ~Has(o, "html") THEN {"not-decodable: " \o o.oddhtml}
                 ELSE (IF o.html.boxes # PageBoxes(out.bk, out.rows, s) THEN {"page"} ELSE {})
                      \cup (IF style.k = "text" /\ o.html.css # style.t THEN {"style"} ELSE {})
            [] OTHER -> {}

\* a run repeated in the same state shows the same, to the byte
Query(e) == [f \in DOMAIN e \ {"o", "chk"} |-> e[f]]
SameFaults(e) == IF Chk(e, "same") /\ \E x \in seen : x[1] = Query(e) /\ x[2] # <<e.o.rc, e.o.hash>> THEN {"output-differs"} ELSE {}

Done == i' = Len(Trace[sc].ev) + 1
\* what was expected, for a person (VDEBUG=1)
Tell(e) == IF "VDEBUG" \notin DOMAIN IOEnv THEN TRUE
           ELSE LET st == Settings(disk, e.env, e.lang, e.cmd, e.cli)
                    b == BookOf(st)
                    out == IF st.k # "ok" THEN st ELSE IF b.k # "ok" THEN [k |-> b.k] ELSE Outcome(b.bk, e, st)
                IN PrintT("@@EXPECT " \o Trace[sc].id) /\ PrintT(out)
                   /\ (out.k = "ok" /\ TypeOf(e, st) = "html" => PrintT("@@PAGE " \o ToJson(PageBoxes(out.bk, out.rows, st.s))))
                   /\ (out.k = "ok" /\ TypeOf(e, st) = "text" /\ Has(e, "term") => PrintT("@@TERM " \o ToJson(ShownOf(e, st, out, e.term))))
                   /\ (out.k = "ok" /\ TypeOf(e, st) = "text" => PrintT("@@TEXT " \o ToJson(TextOf(e, st, out))))
Report1(e, fs) == /\ Tell(e) /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o SJoin(SetToSeq(fs), "&&"))
                  /\ Done /\ UNCHANGED <<bk, disk, seen>>
Told(e) == \A k \in 1..Len(e.files) : "want" \in DOMAIN e.files[k] =>
   LET got == LinesOf(e.files[k].t) IN
   \A n \in 1..Len(e.files[k].want) : LET w == e.files[k].want[n] IN "t" \notin DOMAIN w \/ w = got[n]
LoadStep(e) ==
  LET ms == {e.mains[n] : n \in 1..Len(e.mains)}
      one(m) == LET st == LoadTexts(e.files, m) IN IF st.s = "ok" THEN [k |-> "ok", bk |-> LoadedBook(st)] ELSE [k |-> st.s]
  IN IF ~Told(e) THEN PrintT("@@SPEC " \o Trace[sc].id) /\ Done /\ UNCHANGED <<bk, disk, seen>>
     ELSE i' = i + 1 /\ bk' = [p \in {Resolve(<< >>, m) : m \in ms} |-> one(CHOOSE m \in ms : Resolve(<< >>, m) = p)] /\ UNCHANGED <<disk, seen>>
FileOf(e) == [set |-> e.set, macros |-> e.macros, bad |-> Has(e, "bad")]
RunStep(e) ==
  LET st == Settings(disk, e.env, e.lang, e.cmd, e.cli)
      fs == RunFaults(st, e) \cup SameFaults(e)
            \cup (IF Chk(e, "first") /\ e.o.created # FirstRun(disk, e.env) THEN {"first-run"} ELSE {})
  IN IF fs # {} THEN Report1(e, fs)
     ELSE i' = i + 1 /\ disk' = DiskAfter(disk, e.env) /\ seen' = seen \cup {<<Query(e), <<e.o.rc, e.o.hash>>>>} /\ UNCHANGED bk
Init == sc \in 1..Len(Trace) /\ i = 0 /\ bk = [p \in {} |-> EmptyBook] /\ disk = [p \in {} |-> NoFile] /\ seen = {}
Next == /\ i < Len(Trace[sc].ev)
        /\ LET e == Ev IN
           CASE e.op = "load" -> LoadStep(e)
             [] e.op = "cfg" -> i' = i + 1 /\ disk' = (e.at :> FileOf(e)) @@ disk /\ seen' = {} /\ UNCHANGED bk
             [] e.op = "run" -> RunStep(e)
        /\ sc' = sc
Spec == Init /\ [][Next]_vars
===============================================================================
