------------------------------ MODULE TraceLoad ------------------------------
(* Validation of recorded loads: what the program made of the files of a      *)
(* scenario, against Loader.tla; the book it shows is then judged as in       *)
(* TraceBook.                                                                 *)
EXTENDS TraceBook, Loader

\* the generator's own idea of a line, where it gives one, is that of the notation
\* (a disagreement is a fault of this machinery, not of the program)
Told(e) == e.op = "bytes" \/ \A k \in 1..Len(e.files) : "want" \in DOMAIN e.files[k] =>
   LET got == LinesOf(e.files[k].t) IN
   \A n \in 1..Len(e.files[k].want) : LET w == e.files[k].want[n] IN
      \/ "t" \in DOMAIN w /\ w = got[n]
      \/ "t" \notin DOMAIN w
LoadStep ==
  /\ i < Len(Trace[sc].ev)
  /\ LET e == Ev
         st == IF e.op = "bytes" THEN [Load0 EXCEPT !.s = "unclear"] ELSE LoadTexts(e.files, e.main)
         err == Has(e.o, "err")
         fs == IF Has(e.o, "panic") THEN {"crash: " \o e.o.panic}
               ELSE IF st.s = "bad" /\ ~err /\ Chk(e, "reject") THEN {"loaded-malformed"}
               ELSE IF st.s = "ok" /\ err /\ Chk(e, "accept") THEN {"rejected: " \o e.o.err}
               ELSE {}
     IN IF ~Told(e)
        THEN /\ PrintT("@@SPEC " \o Trace[sc].id) /\ i' = Len(Trace[sc].ev) + 1 /\ UNCHANGED <<bk, dup, seen, dseen>>
        ELSE IF fs # {}
        THEN /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o SJoin(SetToSeq(fs), "&&"))
             /\ i' = Len(Trace[sc].ev) + 1
             /\ UNCHANGED <<bk, dup, seen, dseen>>
        ELSE IF st.s = "ok" /\ ~err
        THEN i' = i + 1 /\ bk' = LoadedBook(st) /\ seen' = {} /\ UNCHANGED <<dup, dseen>>
        \* nothing more is said about this scenario, except that what was loaded balances
        ELSE IF ~err /\ i + 1 < Len(Trace[sc].ev) /\ Has(Trace[sc].ev[i + 2].o, "view") /\ ~ViewBalanced(Trace[sc].ev[i + 2].o.view)
        THEN /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 2) \o "|view|unbalanced")
             /\ i' = Len(Trace[sc].ev) + 1 /\ UNCHANGED <<bk, dup, seen, dseen>>
        ELSE /\ PrintT("@@SKIP " \o Trace[sc].id \o "|" \o SOfInt(Len(Trace[sc].ev) - i - 1) \o "|" \o st.s)
             /\ i' = Len(Trace[sc].ev) + 1 /\ UNCHANGED <<bk, dup, seen, dseen>>
  /\ sc' = sc
LNext == IF i < Len(Trace[sc].ev) /\ Ev.op \in {"load", "bytes"} THEN LoadStep ELSE Next
LSpec == Init /\ [][LNext]_vars
=============================================================================
