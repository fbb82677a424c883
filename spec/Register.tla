------------------------------ MODULE Register ------------------------------
(* The register of a book: what each matching posting moved, against which    *)
(* counter-accounts, with running balances and values in a base currency.     *)
(* An entry is [d, p, a, ca, v, c, n, t]: date, payee, account, counter-      *)
(* accounts, amount, currency and notes.                                      *)
EXTENDS Book

\* the postings of the same transaction and currency with the opposite sign,
\* on other accounts, in order
CountersOf(bk, ks, k) ==
  SelectSeq(ks, LAMBDA j : /\ KDate(j) = KDate(k) /\ KPayee(j) = KPayee(k) /\ KCcy(j) = KCcy(k)
                           /\ KAcct(j) # KAcct(k) /\ RSign(bk.post[j].v) = -RSign(bk.post[k].v))
Entry(k, ca, v, post) == [d |-> KDate(k), p |-> KPayee(k), a |-> KAcct(k), ca |-> ca, v |-> v, c |-> KCcy(k),
                          n |-> post.n, t |-> post.t]
EntriesOf(bk, ks, k, split) ==
  LET cs == CountersOf(bk, ks, k)
      v == bk.post[k].v
      tot == FoldLeft(LAMBDA a, j : RAdd(a, bk.post[j].v), RZero, cs)
  IN IF Len(cs) = 0 THEN << >>
     ELSE IF split THEN [i \in 1..Len(cs) |-> Entry(k, KAcct(cs[i]), RDiv(RMul(v, bk.post[cs[i]].v), tot), bk.post[k])]
     ELSE << Entry(k, SJoin([i \in 1..Len(cs) |-> KAcct(cs[i])], ";"), v, bk.post[k]) >>

\* all entries of the accounts in `match`, in the book's order
RegisterOf(bk, match, split) ==
  LET ks == KeySeq(bk)
      own == SelectSeq(ks, LAMBDA k : KAcct(k) \in match)
  IN FlattenSeq([i \in 1..Len(own) |-> EntriesOf(bk, ks, own[i], split)])

\* running balance beside each entry, per currency
RegBalances(es) == PrefixSums([i \in 1..Len(es) |-> <<es[i].c, es[i].v>>])

(***************************************************************************)
(* Value in the base currency: <<amount, source>>.  A transaction that has *)
(* base and unit with opposite signs on one account implies a rate; where  *)
(* that account holds further currencies the price is as good.             *)
(***************************************************************************)
TradeAccts(bk, d, p, base, unit) ==
  {a \in {KAcct(k) : k \in {x \in DOMAIN bk.post : KDate(x) = d /\ KPayee(x) = p}} :
     /\ <<d, p, a, base>> \in DOMAIN bk.post /\ <<d, p, a, unit>> \in DOMAIN bk.post
     /\ RSign(bk.post[<<d, p, a, base>>].v) = -RSign(bk.post[<<d, p, a, unit>>].v)}
OnlyTwo(bk, d, p, a) == Cardinality({k \in DOMAIN bk.post : KDate(k) = d /\ KPayee(k) = p /\ KAcct(k) = a}) = 2
TradeRate(bk, d, p, a, base, unit) == RNeg(RDiv(bk.post[<<d, p, a, base>>].v, bk.post[<<d, p, a, unit>>].v))
BaseValues(bk, e, base) ==
  IF e.c = base THEN {<<e.v, "Exact">>}
  ELSE LET ts == TradeAccts(bk, e.d, e.p, base, e.c)
           trade == {<<RMul(TradeRate(bk, e.d, e.p, a, base, e.c), e.v), "Trade">> : a \in ts}
           market == {<<RMul(q[1], e.v), q[2]>> : q \in Quote(bk, e.d, e.c, base)}
       IN IF \E a \in ts : OnlyTwo(bk, e.d, e.p, a) THEN trade ELSE trade \cup market

\* selection, limit and order
InWindow(es, from, to) == SelectSeq(es, LAMBDA e : (from = 0 \/ e.d >= from) /\ (to = 0 \/ e.d < to))
Limit(es, n) == IF n > 0 /\ Len(es) > n THEN SubSeq(es, 1, n)
                ELSE IF n < 0 /\ Len(es) > -n THEN SubSeq(es, Len(es) + n + 1, Len(es))
                ELSE es
Order(es, asc) == IF asc THEN es ELSE Reverse(es)
=============================================================================
