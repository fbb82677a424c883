-------------------------------- MODULE Book --------------------------------
(* The abstract ledger book and every operation a user can apply to it.       *)
(*                                                                            *)
(* State.  A book maps each place <<date, payee, account, currency>> to the   *)
(* exact non-zero amount posted there (plus the notes that may be shown for   *)
(* it: when postings merge, which of their notes survives is not specified),  *)
(* and holds price lists and the display decimals of each currency.           *)
(* Each operation is a total function Book -> Book; the next-state relation   *)
(* of MCBook / TraceBook is the disjunction of these operations.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Prim, Sums, Calendar

\* ---- contributions: what an operation posts before merging
Contrib(k, v, n, t) == [k |-> k, v |-> v, n |-> n, t |-> t]
\* the postings of a book as a sequence of contributions (any order)
Contribs(post) == LET ks == SetToSeq(DOMAIN post)
                  IN [i \in 1..Len(ks) |-> Contrib(ks[i], post[ks[i]].v, post[ks[i]].n, post[ks[i]].t)]

NoPrices == [p \in {} |-> << >>]
EmptyBook == [post |-> EmptyPost, price |-> NoPrices, dec |-> [c \in {} |-> 0]]

KDate(k) == k[1]
KPayee(k) == k[2]
KAcct(k) == k[3]
KCcy(k) == k[4]

\* ---- rewriting every posting to a sequence of contributions
RewriteSeq(bk, F(_)) == LET cs == Contribs(bk.post)
                        IN [bk EXCEPT !.post = Merge(FlattenSeq([i \in 1..Len(cs) |-> F(cs[i])]))]

(***************************************************************************)
(* Operations.  Regular expressions are the environment's business: an     *)
(* operation on accounts or currencies gets the table of what its          *)
(* expression does to each name (absent = does not match).                 *)
(***************************************************************************)
\* map: rename accounts
MapAcct(bk, ren) == RewriteSeq(bk, LAMBDA c :
   <<[c EXCEPT !.k = <<KDate(@), KPayee(@), ren[KAcct(@)], KCcy(@)>>]>>)

\* move: transfer the share f of every posting on a matching account
Move(bk, tbl, f) == RewriteSeq(bk, LAMBDA c :
   IF KAcct(c.k) \in DOMAIN tbl
   THEN << c, [c EXCEPT !.v = RNeg(RMul(f, @))],
           [c EXCEPT !.v = RMul(f, @), !.k = <<KDate(@), KPayee(@), tbl[KAcct(c.k)], KCcy(@)>>] >>
   ELSE <<c>>)

\* depreciate: a asset transfer now, and n instalments of a/n back, the first
\* on the posting's date and the others on the first day of the next months
InstalmentDate(d, j) == IF j = 0 THEN d ELSE FloorMonth(d, j)
Depreciate(bk, tbl, n) == RewriteSeq(bk, LAMBDA c :
   IF KAcct(c.k) \in DOMAIN tbl
   THEN LET d == KDate(c.k)
            at(dd, a, v) == [c EXCEPT !.v = v, !.k = <<dd, KPayee(@), a, KCcy(@)>>]
            part == RDiv(c.v, ROf(n))
            asset == tbl[KAcct(c.k)]
        IN << c, at(d, KAcct(c.k), RNeg(c.v)), at(d, asset, c.v) >>
           \o [j \in 1..n |-> at(InstalmentDate(d, j - 1), asset, RNeg(part))]
           \o [j \in 1..n |-> at(InstalmentDate(d, j - 1), KAcct(c.k), part)]
   ELSE <<c>>)

KeepWhere(bk, P(_)) == [bk EXCEPT !.post = [k \in {x \in DOMAIN bk.post : P(x)} |-> bk.post[k]]]
Since(bk, d) == IF d = 0 THEN bk ELSE KeepWhere(bk, LAMBDA k : KDate(k) >= d)
AsOf(bk, d)  == IF d = 0 THEN bk ELSE KeepWhere(bk, LAMBDA k : KDate(k) < d)

Combine(bk, by, today) == RewriteSeq(bk, LAMBDA c :
   <<[c EXCEPT !.k = <<FloorBy(KDate(@), by, 0, today), "", KAcct(@), KCcy(@)>>]>>)

\* scale every amount by a per-(date, currency) rational and restate its currency
Rescale(bk, fac) == RewriteSeq(bk, LAMBDA c :
   LET r == fac[<<KDate(c.k), KCcy(c.k)>>]
   IN <<[c EXCEPT !.v = RMul(@, r[1]), !.k = <<KDate(@), KPayee(@), KAcct(@), r[2]>>]>>)

(***************************************************************************)
(* Building a book from a list of transactions                             *)
(*   txn  = [d, p, n, ps],  ps = sequence of [a, c, v, n]                  *)
(* A (date, payee) pair seen before is kept apart by numbering: "X (2)",   *)
(* "X (3)", ... the first number not in use.                               *)
(***************************************************************************)
RECURSIVE FreeName(_, _, _, _)
FreeName(used, d, p, i) ==
  LET q == IF i = 1 THEN p ELSE p \o " (" \o SOfInt(i) \o ")"
  IN IF <<d, q>> \in used THEN FreeName(used, d, p, i + 1) ELSE q

TxnContribs(x, payee) == [j \in 1..Len(x.ps) |->
   Contrib(<<x.d, payee, x.ps[j].a, x.ps[j].c>>, x.ps[j].v, {x.ps[j].n}, {x.n})]
BuildStep(acc, x) ==
  LET q == FreeName(acc.used, x.d, x.p, 1)
  IN [used |-> acc.used \cup {<<x.d, q>>}, cs |-> acc.cs \o TxnContribs(x, q)]
BuildContribs(txns) == FoldLeft(BuildStep, [used |-> {}, cs |-> << >>], txns).cs
DecOf(cs) == [c \in {KCcy(cs[i].k) : i \in 1..Len(cs)} |->
                Max({RDecNeed(cs[i].v) : i \in {j \in 1..Len(cs) : KCcy(cs[j].k) = c}})]

(***************************************************************************)
(* Prices                                                                  *)
(***************************************************************************)
\* a price list is a sequence of <<date, value>> in the order recorded
PairsOf(bk) == DOMAIN bk.price
AddPrice(pr, d, unit, ccy, v) ==
  LET p == <<unit, ccy>> IN
  IF p \in DOMAIN pr THEN [pr EXCEPT ![p] = Append(@, <<d, v>>)] ELSE pr @@ (p :> << <<d, v>> >>)

\* what a list says at date d: the set of admissible <<value, kind>> (a set only
\* because several prices may be recorded for one pair and day)
ListQuote(pl, d) ==
  LET dates == {pl[i][1] : i \in 1..Len(pl)}
      vals(x) == {pl[i][2] : i \in {j \in 1..Len(pl) : pl[j][1] = x}}
      lo == Min(dates)
      hi == Max(dates)
  IN IF d < lo THEN {<<v, "OutOfRange">> : v \in vals(lo)}
     ELSE IF d > hi THEN {<<v, "OutOfRange">> : v \in vals(hi)}
     ELSE IF d \in dates THEN {<<v, "Exact">> : v \in vals(d)}
     ELSE LET a == Max({x \in dates : x < d})
              b == Min({x \in dates : x > d})
              w == RDiv(ROf(DayNo(d) - DayNo(a)), ROf(DayNo(b) - DayNo(a)))
          IN {<<RAdd(x, RMul(w, RSub(y, x))), "Inferred">> : x \in vals(a), y \in vals(b)}

Quote(bk, d, unit, ccy) ==
  IF unit = ccy THEN {<<ROne, "Exact">>}
  ELSE IF <<unit, ccy>> \in DOMAIN bk.price THEN ListQuote(bk.price[<<unit, ccy>>], d)
  ELSE IF <<ccy, unit>> \in DOMAIN bk.price
       THEN {IF q[1] = RZero THEN <<ROne, "None">> ELSE <<RDiv(ROne, q[1]), q[2]>> : q \in ListQuote(bk.price[<<ccy, unit>>], d)}
  ELSE {<<ROne, "None">>}
\* a price of zero that would have to be turned around: what it gives is not specified
ZeroBack(bk, d, unit, ccy) == <<unit, ccy>> \notin DOMAIN bk.price /\ <<ccy, unit>> \in DOMAIN bk.price
                              /\ \E q \in ListQuote(bk.price[<<ccy, unit>>], d) : q[1] = RZero
\* the quote when it is unambiguous (conversion scenarios record one price per pair and day)
TheQuote(bk, d, unit, ccy) == CHOOSE q \in Quote(bk, d, unit, ccy) : TRUE

PriceTable(prices) == FoldLeft(LAMBDA pr, x : AddPrice(pr, x.d, x.u, x.c, x.v), NoPrices, prices)
Build(txns, prices) ==
  LET cs == BuildContribs(txns)
  IN [post |-> Merge(cs), price |-> PriceTable(prices), dec |-> DecOf(cs)]

Convert(bk, base) ==
  LET dcs == {<<KDate(k), KCcy(k)>> : k \in DOMAIN bk.post}
  IN Rescale(bk, [x \in dcs |-> <<TheQuote(bk, x[1], x[2], base)[1], base>>])

\* mapccy: rename currencies in postings, prices and decimals
RenCcy(ren, c) == IF c \in DOMAIN ren THEN ren[c] ELSE c
MapCcy(bk, ren) ==
  LET b1 == RewriteSeq(bk, LAMBDA c :
              <<[c EXCEPT !.k = <<KDate(@), KPayee(@), KAcct(@), RenCcy(ren, KCcy(@))>>]>>)
      pairs == SetToSeq(DOMAIN bk.price)
      np == {<<RenCcy(ren, p[1]), RenCcy(ren, p[2])>> : p \in DOMAIN bk.price}
      from(q) == SelectSeq(pairs, LAMBDA p : <<RenCcy(ren, p[1]), RenCcy(ren, p[2])>> = q)
      nc == {RenCcy(ren, c) : c \in DOMAIN bk.dec}
  IN [b1 EXCEPT !.price = [q \in np |-> FlattenSeq([i \in 1..Len(from(q)) |-> bk.price[from(q)[i]]])],
                !.dec = [c \in nc |-> Max({bk.dec[x] : x \in {y \in DOMAIN bk.dec : RenCcy(ren, y) = c}})]]

(***************************************************************************)
(* What a book shows                                                       *)
(***************************************************************************)
TransOf(bk) == {<<KDate(k), KPayee(k)>> : k \in DOMAIN bk.post}
CcysOf(bk) == {KCcy(k) : k \in DOMAIN bk.post}
AcctsOf(bk) == {KAcct(k) : k \in DOMAIN bk.post}
SumOver(bk, ks) == FoldSet(LAMBDA k, a : RAdd(bk.post[k].v, a), RZero, ks)

\* C02: every transaction sums to zero in every currency
TotalsOf(bk) == LET ks == SetToSeq(DOMAIN bk.post)
                IN SumBy([i \in 1..Len(ks) |-> <<<<KDate(ks[i]), KPayee(ks[i]), KCcy(ks[i])>>, bk.post[ks[i]].v>>])
Unbalanced(bk) == LET s == TotalsOf(bk) IN {x \in DOMAIN s : s[x] # RZero}
Balanced(bk) == Unbalanced(bk) = {}

KeyLt(a, b) ==
  \/ KDate(a) < KDate(b)
  \/ KDate(a) = KDate(b) /\ SLt(KPayee(a), KPayee(b))
  \/ KDate(a) = KDate(b) /\ KPayee(a) = KPayee(b) /\ SLt(KAcct(a), KAcct(b))
  \/ KDate(a) = KDate(b) /\ KPayee(a) = KPayee(b) /\ KAcct(a) = KAcct(b) /\ SLt(KCcy(a), KCcy(b))
TransLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ SLt(a[2], b[2]))

KeySeq(bk) == SetToSortSeq(DOMAIN bk.post, KeyLt)

\* A view is what the program shows: a sequence of transactions
\*   [d, p, n, ps], ps a sequence of postings [a, c, v, b, n]
ViewKeys(view) == FlattenSeq([i \in 1..Len(view) |->
   [j \in 1..Len(view[i].ps) |-> <<view[i].d, view[i].p, view[i].ps[j].a, view[i].ps[j].c>>]])
ViewPosts(view) == FlattenSeq([i \in 1..Len(view) |-> view[i].ps])

\* C02 on a view, independent of any model state
ViewBalanced(view) == \A i \in 1..Len(view) :
   LET ps == view[i].ps
       s == SumBy([j \in 1..Len(ps) |-> <<ps[j].c, ps[j].v>>])
   IN \A c \in DOMAIN s : s[c] = RZero

\* C03 on a view, independent of any model state
ViewCanonical(view) ==
  LET ks == ViewKeys(view) IN
  /\ \A i \in 1..Len(view) : Len(view[i].ps) > 0
  /\ \A i \in 1..(Len(view) - 1) : TransLt(<<view[i].d, view[i].p>>, <<view[i+1].d, view[i+1].p>>)
  /\ \A i \in 1..(Len(ks) - 1) : KeyLt(ks[i], ks[i+1])
  /\ \A i \in 1..Len(view) : \A j \in 1..Len(view[i].ps) :
        view[i].ps[j].v # RZero /\ view[i].ps[j].d = view[i].d /\ view[i].ps[j].p = view[i].p
ViewBalances(view) ==
  LET ps == ViewPosts(view)
      run == PrefixSums([j \in 1..Len(ps) |-> <<<<ps[j].a, ps[j].c>>, ps[j].v>>])
  IN \A j \in 1..Len(ps) : ps[j].b = run[j]

\* the view agrees with the model book
ViewAmounts(bk, view) ==
  LET ks == ViewKeys(view)
      ps == ViewPosts(view)
  IN {<<ks[i], ps[i].v>> : i \in 1..Len(ks)} = {<<k, bk.post[k].v>> : k \in DOMAIN bk.post}
ViewNotes(bk, view) ==
  \A i \in 1..Len(view) : \A j \in 1..Len(view[i].ps) :
     LET k == <<view[i].d, view[i].p, view[i].ps[j].a, view[i].ps[j].c>> IN
     k \in DOMAIN bk.post =>
       /\ view[i].ps[j].n \in bk.post[k].n
       /\ view[i].ps[j].t \in bk.post[k].t
=============================================================================
