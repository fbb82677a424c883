------------------------------ MODULE MCRegister -----------------------------
(* Small-scope model of the register: every book of one or two transactions   *)
(* over a few accounts and currencies, every selection of accounts, joined or *)
(* split.  The laws of C15, C16 and C17 are invariants; with Emit the books   *)
(* and queries are printed and replayed on the real program.                  *)
EXTENDS Register, Json, IOUtils
CONSTANTS Emit, Deep
VARIABLES txns, q, bk
vars == <<txns, q, bk>>

P(a, c, v) == [a |-> a, c |-> c, v |-> ROf(v), n |-> ""]
T(d, p, ps) == [d |-> d, p |-> p, n |-> "", ps |-> ps]
Vals == IF Deep THEN {-3, -1, 2, 3} ELSE {-1, 2, 3}
\* one currency, two free postings and the balancing one; or an exchange on one account
Simple(d, p) == {T(d, p, <<P("A:1", "x", v), P("A:2", "x", w), P("B", "x", -v - w)>>) : v \in Vals, w \in Vals}
Four(d, p) == {T(d, p, <<P("A:1", "x", v), P("A:2", "x", w), P("B", "x", 4), P("C", "x", -v - w - 4)>>) : v \in Vals, w \in Vals}
Trade(d, p) == {T(d, p, <<P("A:1", "x", v), P("B", "x", -v), P("A:1", "y", w), P("C", "y", -w)>>) : v \in Vals, w \in {-2, 5}}
Firsts == Simple(20200131, "p") \cup Trade(20200131, "p") \cup Four(20200131, "p")
Seconds == Trade(20200301, "q") \cup {T(20200131, "a", <<P("A:1", "x", 2), P("B", "x", -2)>>)}
Prices == << [d |-> 20200101, u |-> "y", c |-> "x", v |-> "2/1"], [d |-> 20200401, u |-> "y", c |-> "x", v |-> "3/1"] >>
Sels == << [re |-> ".", match |-> {"A:1", "A:2", "B", "C"}], [re |-> "^A:", match |-> {"A:1", "A:2"}], [re |-> "^B$", match |-> {"B"}] >>
Queries == {[re |-> Sels[n].re, match |-> Sels[n].match, split |-> s, base |-> b] : n \in 1..Len(Sels), s \in BOOLEAN, b \in {"x", "y", "z"}}

Init == /\ txns = << >> /\ bk = EmptyBook /\ q = [re |-> "", match |-> {}, split |-> FALSE, base |-> ""]
Next == \/ txns = << >> /\ \E a \in Firsts : txns' = <<a>> /\ bk' = Build(<<a>>, Prices) /\ q' = q
        \/ Len(txns) = 1 /\ q.re = "" /\ \E b \in Seconds : txns' = <<txns[1], b>> /\ bk' = Build(txns', Prices) /\ q' = q
        \/ txns # << >> /\ q.re = "" /\ \E x \in Queries : q' = x /\ UNCHANGED <<txns, bk>>
Spec == Init /\ [][Next]_vars

Es0 == RegisterOf(bk, q.match, q.split)
\* C15: the entries of a posting with counters add up to it; the running balance ends at the account totals
Of(Es, k) == SelectSeq(Es, LAMBDA e : e.d = KDate(k) /\ e.p = KPayee(k) /\ e.a = KAcct(k) /\ e.c = KCcy(k))
SumV(es) == FoldLeft(LAMBDA a, e : RAdd(a, e.v), RZero, es)
LawAmounts == q.re # "" => LET Es == Es0 IN \A k \in {x \in DOMAIN bk.post : KAcct(x) \in q.match} :
   /\ SumV(Of(Es, k)) = bk.post[k].v
   /\ \A n \in 1..Len(Of(Es, k)) : RSign(Of(Es, k)[n].v) = RSign(bk.post[k].v)
   /\ ~q.split => Len(Of(Es, k)) = 1
LawBalance == q.re # "" => LET Es == Es0 IN \A c \in CcysOf(bk) :
   LET es == SelectSeq(Es, LAMBDA e : e.c = c)
       tot == SumOver(bk, {k \in DOMAIN bk.post : KAcct(k) \in q.match /\ KCcy(k) = c})
   IN IF es = << >> THEN tot = RZero ELSE RegBalances(es)[Len(es)] = tot
\* C16: defined for every entry; the base currency is worth itself
LawBase == q.re # "" => LET Es == Es0 IN \A n \in 1..Len(Es) :
   LET bs == BaseValues(bk, Es[n], q.base) IN
   /\ bs # {}
   /\ Es[n].c = q.base => bs = {<<Es[n].v, "Exact">>}
   /\ (q.base = "z" /\ Es[n].c # "z") => \A b \in bs : b[2] = "None"
\* C17: windows partition the entries, a positive and a negative limit meet, order reverses
LawSelect == q.re # "" => LET Es == Es0 IN \A d \in {20200101, 20200131, 20200201, 20200301, 20200302} :
   /\ InWindow(Es, 0, d) \o InWindow(Es, d, 0) = Es
   /\ \A n \in 1..Len(Es) : Limit(Es, n) \o (IF n = Len(Es) THEN << >> ELSE Limit(Es, n - Len(Es))) = Es
   /\ Order(Order(Es, FALSE), FALSE) = Es
EmitProg == Emit /\ q.re # "" => PrintT("@@PROG " \o ToJson([ev |-> <<
   [op |-> "build", txns |-> txns, prices |-> Prices], [op |-> "register", re |-> q.re, base |-> q.base, split |-> q.split]>>]))
=============================================================================
