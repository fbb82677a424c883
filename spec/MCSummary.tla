------------------------------- MODULE MCSummary -----------------------------
(* Small-scope model of the summarised report: every set of accounts out of a *)
(* tree with gaps and look-alike names, in two periods, with a foreign        *)
(* currency anywhere.  The laws of C13 and C14 are invariants; with Emit the  *)
(* books and queries are printed and replayed on the real program.            *)
EXTENDS Summary, Json, IOUtils
CONSTANTS Emit, MaxAccts
VARIABLES txns, q, bk
vars == <<txns, q, bk>>

Accts == {"A", "A:B", "A:B:C", "A:B:D", "A-X", "A:BB", "E:F"}
P(a, c, v) == [a |-> a, c |-> c, v |-> v, n |-> ""]
Prices == << [d |-> 20200101, u |-> "y", c |-> "x", v |-> "3/2"], [d |-> 20200201, u |-> "y", c |-> "x", v |-> "5/2"] >>
\* amounts by position: distinct, equal or negative ones
Pattern == << <<7, 5, -2, 9>>, <<1, 1, 1, 1>>, <<-4, 10, -20, 3>> >>
\* period 1 posts to all the accounts, period 2 to the later ones; "foreign" holds y instead of x
Txn(d, accts, from, pat, foreign) ==
  LET n == Len(accts)
      own == [i \in 1..(n - from + 1) |-> LET a == accts[from + i - 1] IN P(a, IF a = foreign THEN "y" ELSE "x", ROf(Pattern[pat][from + i - 1]))]
      bal(c) == LET s == FoldLeft(LAMBDA t, p : IF p.c = c THEN RAdd(t, p.v) ELSE t, RZero, own) IN P("Z", c, RNeg(s))
  IN [d |-> d, p |-> "", n |-> "", ps |-> own \o <<bal("x"), bal("y")>>]

Queries == {[base |-> "x", div |-> ":", credit |-> c, hidden |-> h] : c \in {"", "^A:B"}, h \in {"", "A:B", "Z"}}
CreditSet(c) == IF c = "" THEN {} ELSE {a \in {"A:B", "A:B:C", "A:B:D", "A:BB"} : TRUE}
None == [base |-> "", div |-> "", credit |-> "", hidden |-> ""]

Sorted(as) == SetToSortSeq(as, SLt)
Init == txns = << >> /\ bk = EmptyBook /\ q = None
Next == \/ txns = << >> /\ q' = q
           /\ \E as \in {x \in SUBSET Accts : x # {} /\ Cardinality(x) <= MaxAccts}, pat \in 1..3, foreign \in Accts \cup {""} :
                /\ foreign # "" => foreign \in as
                /\ txns' = <<Txn(20200115, Sorted(as), 1, pat, foreign), Txn(20200210, Sorted(as), IF Cardinality(as) > 1 THEN 2 ELSE 1, pat, foreign)>>
                /\ bk' = Build(txns', Prices)
        \/ txns # << >> /\ q = None /\ q' \in Queries /\ UNCHANGED <<txns, bk>>
Spec == Init /\ [][Next]_vars

S0 == Summary(bk, q.base, q.div, CreditSet(q.credit), q.hidden)
Plain0 == Summary(bk, q.base, q.div, {}, "")
On == q # None
Below(a, n) == a = n \/ SStarts(a, n \o ":")
Conv(k) == RMul(bk.post[k].v, TheQuote(bk, KDate(k), KCcy(k), "x")[1])
\* C13: each subtotal is the sum of what is below it; own rows are the postings
LawSubtotal == On => LET Plain == Plain0 IN \A i \in 1..Len(Plain) : \A j \in 1..Len(Plain[i].ps) :
   LET r == Plain[i].ps[j]
       isSub == \E m \in (j + 1)..Len(Plain[i].ps) : m = j + 1 /\ Plain[i].ps[m].l > r.l
       sum == FoldSet(LAMBDA k, t : RAdd(t, Conv(k)), RZero, {k \in DOMAIN bk.post : KDate(k) = Plain[i].d /\ Below(KAcct(k), r.a)})
   IN IF isSub THEN r.v = sum
      ELSE r.v = (IF <<Plain[i].d, "", r.a, r.c>> \in DOMAIN bk.post THEN bk.post[<<Plain[i].d, "", r.a, r.c>>].v ELSE RZero)
\* C13: top rows add up to the whole period
LawTotal == On => LET Plain == Plain0 IN \A i \in 1..Len(Plain) :
   LET top == SelectSeq(Plain[i].ps, LAMBDA r : r.l = 0)
   IN FoldLeft(LAMBDA t, r : RAdd(t, r.v), RZero, top)
        = FoldSet(LAMBDA k, t : RAdd(t, Conv(k)), RZero, {k \in DOMAIN bk.post : KDate(k) = Plain[i].d})
\* C13: credit rows negated, hidden rows absent, nothing else changed
LawShown == On => LET Plain == Plain0 S == S0 IN \A i \in 1..Len(S) :
   LET keep == SelectSeq(Plain[i].ps, LAMBDA r : r.a # q.hidden) IN
   /\ Len(keep) = Len(S[i].ps)
   /\ \A j \in 1..Len(keep) : S[i].ps[j] = [keep[j] EXCEPT !.v = IF keep[j].a \in CreditSet(q.credit) THEN RNeg(@) ELSE @]
\* C14: the same rows in every period, nested by level
Rows(t) == {<<t.ps[j].a, t.ps[j].c, t.ps[j].l, t.ps[j].term>> : j \in 1..Len(t.ps)}
LawRows == On => LET S == S0 IN \A i \in 2..Len(S) : Rows(S[i]) = Rows(S[1]) /\ Len(S[i].ps) = Len(S[1].ps)
LawNested == On => LET Plain == Plain0 IN \A i \in 1..Len(Plain) : \A j \in 1..Len(Plain[i].ps) :
   LET r == Plain[i].ps[j] IN
   IF j = 1 THEN r.l = 0
   ELSE /\ r.l <= Plain[i].ps[j - 1].l + 1
        /\ r.l > 0 => LET par == CHOOSE m \in 1..(j - 1) : Plain[i].ps[m].l = r.l - 1 /\ \A x \in (m + 1)..(j - 1) : Plain[i].ps[x].l >= r.l
                      IN Below(r.a, Plain[i].ps[par].a)
EmitProg == Emit /\ On => PrintT("@@PROG " \o ToJson([ev |-> <<
   [op |-> "build", txns |-> txns, prices |-> Prices],
   [op |-> "accumulate", base |-> q.base, div |-> q.div, credit |-> q.credit, hidden |-> q.hidden]>>]))
=============================================================================
