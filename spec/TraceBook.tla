------------------------------ MODULE TraceBook ------------------------------
(* Validation of recorded executions of the real program against Book.tla:    *)
(* every line of the trace file is one scenario, a sequence of events, each   *)
(* an operation with its arguments and what the program showed for it.  An    *)
(* initial state picks a scenario; each step consumes one event, moves the    *)
(* model book by the same operation and compares what was shown.              *)
EXTENDS Register, Summary, Import, Ops, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES sc, i, bk, dup,
          seen, dseen       \* what each read of the book / its duplicate showed since the last operation on it
vars == <<sc, i, bk, dup, seen, dseen>>

Ev == Trace[sc].ev[i + 1]

\* the counter-accounts the program chose, where it had to choose one
Chosen(b, e) ==
  LET v == IF "view" \in DOMAIN e.o THEN e.o.view ELSE << >>
      at == [t \in {<<v[n].d, v[n].p>> : n \in 1..Len(v)} |-> v[CHOOSE n \in 1..Len(v) : <<v[n].d, v[n].p>> = t].ps]
      pr == PairsOn(b, e.acct)
      of(t) == LET ps == IF t \in DOMAIN at THEN at[t] ELSE << >>
                   others == {ps[n].a : n \in 1..Len(ps)} \ {e.acct}
               IN IF Cardinality(others) = 1 THEN CHOOSE a \in others : TRUE ELSE pr[t]
  IN [t \in DOMAIN pr |-> of(t)]

\* one disjunct per operation of Book.tla; the result is the next model book
Apply(b, e) ==
  CASE e.op = "build"      -> Build(e.txns, e.prices)
    [] e.op = "map"        -> MapAcct(b, e.ren)
    [] e.op = "move"       -> Move(b, e.tbl, RDec(e.f))
    [] e.op = "depreciate" -> Depreciate(b, e.tbl, e.n)
    [] e.op = "since"      -> Since(b, ParseDate(e.arg, e.today))
    [] e.op = "asof"       -> AsOf(b, ParseDate(e.arg, e.today))
    [] e.op = "combine"    -> Combine(b, e.by, e.today)
    [] e.op = "mapccy"     -> MapCcy(b, e.ren)
    [] e.op = "convert"    -> Convert(b, e.base)
    [] e.op = "dedup"      -> Dedup(b, Build(e.ref.txns, e.ref.prices))
    [] e.op = "reclass"    -> Reclassed(b, e.acct, Chosen(b, e))
    [] e.op = "ops"        -> ApplyOps(b, ReadOps(e.ops, e.macros, e.rx, e.today), e.rx, e.today)
    [] OTHER -> b

\* arguments the program must refuse
Refused(e) == CASE e.op \in {"since", "asof"} -> ParseDate(e.arg, e.today) = 0
                [] e.op = "ops" -> Spelled(ReadOps(e.ops, e.macros, e.rx, e.today), "bad")
                [] OTHER -> FALSE
\* arguments of which nothing is said
Open(e) == e.op = "ops" /\ LET os == ReadOps(e.ops, e.macros, e.rx, e.today) IN Spelled(os, "unclear") /\ ~Spelled(os, "bad")

Has(e, f) == f \in DOMAIN e
Chk(e, c) == \E n \in 1..Len(e.chk) : e.chk[n] = c

\* names of the comparisons that fail for event e in model book b
ViewFaults(b, e) ==
  (IF Chk(e, "balanced") /\ ~ViewBalanced(e.o.view) THEN {"unbalanced"} ELSE {})
  \cup (IF Chk(e, "canonical") /\ ~ViewCanonical(e.o.view) THEN {"not-canonical"} ELSE {})
  \cup (IF Chk(e, "balances") /\ ~ViewBalances(e.o.view) THEN {"running-balance"} ELSE {})
  \cup (IF Chk(e, "amounts") /\ ~ViewAmounts(b, e.o.view) THEN {"amounts"} ELSE {})
  \cup (IF Chk(e, "notes") /\ ~ViewNotes(b, e.o.view) THEN {"notes"} ELSE {})

PriceFaults(b, e) ==
  IF <<e.o.v, e.o.k>> \in Quote(b, e.d, e.u, e.c) THEN {}
  ELSE IF ZeroBack(b, e.d, e.u, e.c) THEN {}
  ELSE {"price"}

\* price lists: per pair, sorted by date, the same (date, value) multiset
Sorted(q) == \A x \in 1..(Len(q) - 1) : q[x][1] <= q[x + 1][1]
Count(q, x) == Cardinality({n \in 1..Len(q) : q[n] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A n \in 1..Len(p) : Count(p, p[n]) = Count(q, p[n])
PricesFaults(b, e) ==
  LET got == e.o.lists      \* sequence of [u, c, l]
      pairs == {<<got[n].u, got[n].c>> : n \in 1..Len(got)}
  IN (IF pairs # DOMAIN b.price \/ Cardinality(pairs) # Len(got) THEN {"price-pairs"} ELSE {})
     \cup (IF \E n \in 1..Len(got) : ~Sorted(got[n].l) THEN {"price-order"} ELSE {})
     \cup (IF pairs = DOMAIN b.price /\ \E n \in 1..Len(got) : ~SameBag(got[n].l, b.price[<<got[n].u, got[n].c>>])
           THEN {"price-list"} ELSE {})

DecFaults(b, e) == IF \A c \in CcysOf(b) \cap DOMAIN b.dec : Has(e.o.dec, c) /\ e.o.dec[c] = b.dec[c]
                   THEN {} ELSE {"decimals"}

\* accounts: final balances per account and currency
FinalBal(b, a, c) == SumOver(b, {k \in DOMAIN b.post : KAcct(k) = a /\ KCcy(k) = c})
AcctsExpected(b, e) == {a \in AcctsOf(b) : Has(e.match, a) /\
                          (e.all \/ \E c \in CcysOf(b) : FinalBal(b, a, c) # RZero)}
AcctFaults(b, e) ==
  LET out == e.o.accts IN
  (IF {out[n] : n \in 1..Len(out)} # AcctsExpected(b, e) THEN {"accounts"} ELSE {})
  \cup (IF \E n \in 1..(Len(out) - 1) : ~SLt(out[n], out[n + 1]) THEN {"accounts-order"} ELSE {})

\* forward iteration over one price list
IterFaults(b, e) ==
  IF <<e.u, e.c>> \notin DOMAIN b.price THEN IF Len(e.o.q) = 0 THEN {} ELSE {"iterator"}
  ELSE IF Len(e.o.q) = Len(e.ds) /\ \A n \in 1..Len(e.ds) : <<e.o.q[n][1], e.o.q[n][2]>> \in ListQuote(b.price[<<e.u, e.c>>], e.ds[n])
       THEN {} ELSE {"iterator"}

\* the register: entries, running balances, base currency columns
RegFaults(b, e) ==
  LET got == e.o.reg
      exp == RegisterOf(b, {a \in AcctsOf(b) : Has(e.match, a)}, e.split)
      same(n) == /\ got[n].d = exp[n].d /\ got[n].p = exp[n].p /\ got[n].a = exp[n].a /\ got[n].ca = exp[n].ca
                 /\ got[n].c = exp[n].c /\ got[n].v = exp[n].v
      bal == PrefixSums([n \in 1..Len(got) |-> <<got[n].c, got[n].v>>])
      bbal == PrefixSums([n \in 1..Len(got) |-> <<0, got[n].bv>>])
      baseOk(n) == LET bs == BaseValues(b, exp[n], e.base) IN bs = {} \/ <<got[n].bv, got[n].bk>> \in bs
  IN IF Len(got) # Len(exp) THEN (IF Chk(e, "entries") THEN {"register-entries"} ELSE {})
     ELSE (IF Chk(e, "entries") /\ \E n \in 1..Len(got) : ~same(n) THEN {"register-entries"} ELSE {})
          \cup (IF Chk(e, "entries") /\ \E n \in 1..Len(got) : got[n].n \notin exp[n].n \/ got[n].t \notin exp[n].t THEN {"register-notes"} ELSE {})
          \cup (IF Chk(e, "entries") /\ \E n \in 1..Len(got) : got[n].b # bal[n] THEN {"register-balance"} ELSE {})
          \cup (IF Chk(e, "base") /\ \E n \in 1..Len(got) : got[n].bc # e.base \/ got[n].bb # bbal[n] THEN {"register-base-balance"} ELSE {})
          \cup (IF Chk(e, "base") /\ (\A n \in 1..Len(got) : same(n)) /\ \E n \in 1..Len(got) : ~baseOk(n) THEN {"register-base"} ELSE {})

\* the summary: the same rows with the same amounts (C13), in tree order with level and label (C14)
AccFaults(b, e) ==
  LET got == e.o.acc
      exp == Summary(b, e.base, e.div, {a \in DOMAIN e.creditm : e.creditm[a]}, e.hidden)
      vals(t) == [x \in {<<t.ps[m].a, t.ps[m].c, t.ps[m].v>> : m \in 1..Len(t.ps)} |->
                    Cardinality({m \in 1..Len(t.ps) : <<t.ps[m].a, t.ps[m].c, t.ps[m].v>> = x})]
      shape(t) == [m \in 1..Len(t.ps) |-> <<t.ps[m].a, t.ps[m].c, t.ps[m].l, t.ps[m].term>>]
      heads(q) == [n \in 1..Len(q) |-> <<q[n].d, q[n].p>>]
  IN IF exp = << >> THEN (IF \A n \in 1..Len(got) : got[n].ps = << >> THEN {} ELSE {"summary-periods"})
     ELSE LET ne == SelectSeq(exp, LAMBDA t : Len(t.ps) > 0) IN
     IF heads(got) # heads(ne) THEN {"summary-periods"}
     ELSE (IF Chk(e, "values") /\ \E n \in 1..Len(got) : vals(got[n]) # vals(ne[n]) THEN {"summary-values"} ELSE {})
          \cup (IF Chk(e, "tree") /\ \E n \in 1..Len(got) : shape(got[n]) # shape(ne[n]) THEN {"summary-tree"} ELSE {})

\* the reference book is not touched
RefFaults(e) == IF ViewAmounts(Build(e.ref.txns, e.ref.prices), e.o.refb) /\ e.o.refa = e.o.refb THEN {} ELSE {"reference-changed"}
ReclassFaults(b, e) ==
  LET ch == ReclassChoices(b, Build(e.ref.txns, e.ref.prices), e.acct, e.sim)
      got == Chosen(b, e)
  IN RefFaults(e)
     \cup (IF \E t \in DOMAIN ch : got[t] \notin ch[t] THEN {"counter-account"} ELSE {})
     \cup (IF e.o.same THEN {} ELSE {"not-deterministic"})

\* C27: a read repeated since the last operation on the same book shows the same,
\* and so does the whole history executed again without the reads
Query(e) == [f \in DOMAIN e \ {"o", "on", "match", "creditm"} |-> e[f]]
MemoFaults(s, e) == IF \E x \in s : x[1] = Query(e) /\ x[2] # e.o THEN {"read-changed"} ELSE {}
AgainFaults(s, ds, e) ==
  IF Has(e.o, "panic") THEN {"crash: " \o e.o.panic}
  ELSE IF \A n \in 1..Len(e.o.reads) :
     LET x == e.o.reads[n]
         m == IF Has(x, "on") THEN ds ELSE s
     IN \A y \in m : y[1] = Query(x) => y[2] = x.o
  THEN {} ELSE {"reads-had-effect"}
Reads == {"view", "price", "prices", "iter", "dec", "accts", "register", "accumulate"}

Faults(b, nb, e) ==
  IF Has(e.o, "panic") THEN {"crash: " \o e.o.panic}
  ELSE IF Refused(e) THEN (IF Has(e.o, "err") THEN {} ELSE {"accepted-invalid"})
  ELSE IF Has(e.o, "err") THEN {"error: " \o e.o.err}
  ELSE IF Has(e, "memo") THEN {}
  ELSE CASE e.op = "view"   -> ViewFaults(b, e)
         [] e.op = "price"  -> PriceFaults(b, e)
         [] e.op = "prices" -> PricesFaults(b, e)
         [] e.op = "dec"    -> DecFaults(b, e)
         [] e.op = "accts"  -> AcctFaults(b, e)
         [] e.op = "iter"   -> IterFaults(b, e)
         [] e.op = "register"   -> RegFaults(b, e)
         [] e.op = "accumulate" -> AccFaults(b, e)
         [] e.op = "dedup"   -> RefFaults(e)
         [] e.op = "reclass" -> ReclassFaults(b, e)
         [] OTHER -> {}

Init == sc \in 1..Len(Trace) /\ i = 0 /\ bk = EmptyBook /\ dup = EmptyBook /\ seen = {} /\ dseen = {}

\* events with a field on = "dup" act on the duplicate of the book
Next ==
  /\ i < Len(Trace[sc].ev)
  /\ LET e == Ev
         onDup == Has(e, "on")
         cur == IF onDup THEN dup ELSE bk
         nb == IF Refused(e) THEN cur ELSE Apply(cur, e)
         mem == IF onDup THEN dseen ELSE seen
         read == e.op \in Reads
         fs == Faults(cur, nb, e) \cup (IF read /\ Has(e.o, "panic") = FALSE THEN MemoFaults(mem, e) ELSE {})
               \cup (IF e.op = "again" THEN AgainFaults(seen, dseen, e) ELSE {})
         nmem == IF e.op = "again" THEN mem ELSE IF read THEN mem \cup {<<Query(e), e.o>>} ELSE {}
         \* a refused sequence may have been applied in part: nothing is said about the book after it
         over == IF e.op # "ops" THEN "" ELSE IF Open(e) THEN "unclear" ELSE IF Refused(e) THEN "refused" ELSE ""
     IN IF over # "" /\ (fs = {} \/ over = "unclear")
        THEN /\ PrintT("@@SKIP " \o Trace[sc].id \o "|" \o SOfInt(Len(Trace[sc].ev) - i - 1) \o "|" \o over)
             /\ i' = Len(Trace[sc].ev) + 1
             /\ UNCHANGED <<bk, dup, seen, dseen>>
        ELSE IF fs = {}
        THEN /\ i' = i + 1
             /\ bk' = IF onDup THEN bk ELSE nb
             /\ dup' = IF onDup THEN nb ELSE IF e.op = "duplicate" THEN bk ELSE dup
             /\ seen' = IF onDup \/ e.op = "duplicate" THEN seen ELSE nmem
             /\ dseen' = IF onDup THEN nmem ELSE IF e.op = "duplicate" THEN seen ELSE dseen
        ELSE /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o SJoin(SetToSeq(fs), "&&"))
             /\ i' = Len(Trace[sc].ev) + 1
             /\ UNCHANGED <<bk, dup, seen, dseen>>
  /\ sc' = sc
Spec == Init /\ [][Next]_vars

\* the model's own books satisfy C02 in every reached state
ModelBalanced == Balanced(bk) /\ Balanced(dup)
=============================================================================
