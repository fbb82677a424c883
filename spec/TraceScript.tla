------------------------------ MODULE TraceScript ------------------------------
(* Validation of recorded runs of `import` and `generate`: a scenario loads a    *)
(* ledger (judged as in TraceLoad) and runs scripts over files or over the book; *)
(* the comments, the values shown and the ledger text of each run are compared   *)
(* with Script.tla's.                                                            *)
EXTENDS Forms, Script, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES sc, i, bk
vars == <<sc, i, bk>>
Ev == Trace[sc].ev[i + 1]
Has(e, f) == f \in DOMAIN e

\* notes that a line can end with
NoteOk(n) == LET cs == SCodes(n) IN Trim(cs) = cs /\ \A j \in 1..Len(cs) : cs[j] \notin {10, 13}
NoBreaks(t) == LET cs == SCodes(t) IN \A j \in 1..Len(cs) : cs[j] \notin {10, 13}
Sayable(b) == \A k \in DOMAIN b.post : /\ \A n \in b.post[k].n \cup b.post[k].t : NoteOk(n)
                                       /\ NoBreaks(KPayee(k)) /\ NoBreaks(KCcy(k))
\* the counter-accounts that were chosen, from the ledger text written
Chosen(b, e) ==
  LET st == LoadTexts(<<[n |-> "x", t |-> e.o.out]>>, "x")
      g == IF st.s = "ok" THEN LoadedBook(st) ELSE EmptyBook
      pr == PairsOn(b, e.df.account)
      of(t) == LET others == {KAcct(k) : k \in {x \in DOMAIN g.post : KDate(x) = t[1] /\ KPayee(x) = t[2]}} \ {e.df.account}
               IN IF Cardinality(others) = 1 THEN CHOOSE a \in others : TRUE ELSE pr[t]
  IN [t \in DOMAIN pr |-> of(t)]
\* the comments of a text, but for those that show values
Comments(txt) == SelectSeq(SSplit(txt, "\n"), LAMBDA l : SStarts(l, ";") /\ ~SStarts(l, "; @"))
Faults(main, e) ==
  LET o == e.o
      x == IF main.k # "ok" THEN [k |-> main.k, msg |-> ""] ELSE IF e.op = "import" THEN Imported(main.bk, e) ELSE Generated(main.bk, e)
      sims == JaroOf({KPayee(k) : k \in DOMAIN x.bk.post}, {KPayee(k) : k \in DOMAIN main.bk.post})
      odd == \E p \in DOMAIN sims : \E q \in DOMAIN sims[p] : sims[p][q].odd
      ch == ReclassChoices(x.bk, main.bk, e.df.account, [p \in DOMAIN sims |-> [q \in DOMAIN sims[p] |-> sims[p][q].v]])
      got == Chosen(x.bk, e)
      reclass == e.op = "import" /\ e.reclass
  IN IF Has(o, "panic") THEN {"crash: " \o o.panic}
     ELSE IF x.k = "unclear" THEN {}
     ELSE IF x.k = "bad" THEN IF o.rc = 0 THEN {"accepted-invalid"} ELSE IF SContains(o.err, x.msg) THEN {} ELSE {"message-not-reported"}
     ELSE IF o.rc # 0 THEN {"failed: " \o o.err}
     ELSE (IF Comments(o.out) # x.out THEN {"comments"} ELSE {})
          \cup (IF o.shown # x.shown THEN {"data"} ELSE {})
          \cup (IF ~Sayable(x.bk) \/ (reclass /\ (odd \/ ~Expressible(x.bk) \/ LoadTexts(<<[n |-> "x", t |-> o.out]>>, "x").s = "unclear")) THEN {}
                ELSE IF ~reclass THEN LedgerFaults(x.bk, o.out, FALSE)
                ELSE (IF \E t \in DOMAIN ch : got[t] \notin ch[t] THEN {"counter-account"} ELSE {})
                     \cup LedgerFaults(Reclassed(x.bk, e.df.account, got), o.out, FALSE))

Done == i' = Len(Trace[sc].ev) + 1
Tell(e) == IF "VDEBUG" \notin DOMAIN IOEnv THEN TRUE
           ELSE PrintT("@@EXPECT " \o Trace[sc].id) /\ PrintT(IF e.op = "import" THEN Imported(bk.bk, e) ELSE Generated(bk.bk, e))
     /\ (e.op = "import" => LET x == Imported(bk.bk, e)
           sims == JaroOf({KPayee(k) : k \in DOMAIN x.bk.post}, {KPayee(k) : k \in DOMAIN bk.bk.post})
        IN PrintT(sims) /\ PrintT(<<"CHOICES", ReclassChoices(x.bk, bk.bk, e.df.account, [p \in DOMAIN sims |-> [q \in DOMAIN sims[p] |-> sims[p][q].v]]), "CHOSEN", Chosen(x.bk, e)>>))
Report1(e, fs) == Tell(e) /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o SJoin(SetToSeq(fs), "&&")) /\ Done /\ UNCHANGED bk
Told(e) == \A k \in 1..Len(e.files) : "want" \in DOMAIN e.files[k] =>
   LET got == LinesOf(e.files[k].t) IN
   \A n \in 1..Len(e.files[k].want) : LET w == e.files[k].want[n] IN "t" \notin DOMAIN w \/ w = got[n]
LoadStep(e) ==
  IF ~Told(e) THEN PrintT("@@SPEC " \o Trace[sc].id) /\ Done /\ UNCHANGED bk
  ELSE LET st == LoadTexts(e.files, e.main) IN
       i' = i + 1 /\ bk' = IF st.s = "ok" THEN [k |-> "ok", bk |-> LoadedBook(st)] ELSE [k |-> st.s, bk |-> EmptyBook]
RunStep(e) == LET fs == Faults(bk, e) IN IF fs # {} THEN Report1(e, fs) ELSE i' = i + 1 /\ UNCHANGED bk
Init == sc \in 1..Len(Trace) /\ i = 0 /\ bk = [k |-> "bad", bk |-> EmptyBook]
Next == /\ i < Len(Trace[sc].ev)
        /\ LET e == Ev IN IF e.op = "load" THEN LoadStep(e) ELSE RunStep(e)
        /\ sc' = sc
Spec == Init /\ [][Next]_vars
===============================================================================
