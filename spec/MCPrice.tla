------------------------------- MODULE MCPrice -------------------------------
(* Small-scope model of the price book: every recording order of up to N      *)
(* prices over two pairs and a few days (across a leap day and a year end),   *)
(* every look-up.  The laws of C10 are invariants; with Emit every table is   *)
(* printed with its look-ups and replayed on the real program.                *)
EXTENDS Book, Json, IOUtils
CONSTANTS Emit, N
VARIABLES rec, pr
vars == <<rec, pr>>
Days == <<20191230, 20200101, 20200229, 20200301>>
Vals == {"2/1", "1/3"}
Pairs == {<<"a", "b">>, <<"b", "a">>}
Asked == <<20191229, 20191231, 20200101, 20200115, 20200228, 20200229, 20200301, 20200401>>
Init == rec = << >> /\ pr = NoPrices
Next == /\ Len(rec) < N
        /\ \E i \in 1..Len(Days), v \in Vals, p \in Pairs :
             /\ rec' = Append(rec, [d |-> Days[i], u |-> p[1], c |-> p[2], v |-> v])
             /\ pr' = AddPrice(pr, Days[i], p[1], p[2], v)
Spec == Init /\ [][Next]_vars

Bk(p) == [EmptyBook EXCEPT !.price = p]
Q(d, u, c) == Quote(Bk(pr), d, u, c)
AskedSet == {Asked[i] : i \in 1..Len(Asked)}
\* the order of recording does not matter (ListQuote only uses the set of recorded prices and their days)
LawOrder == \A d \in AskedSet : Quote(Bk(PriceTable(Reverse(rec))), d, "a", "b") = Q(d, "a", "b")
\* recorded prices are exact, also under the reverse pair when only that is known
LawExact == \A n \in 1..Len(rec) : <<rec[n].v, "Exact">> \in Q(rec[n].d, rec[n].u, rec[n].c)
LawReverse == \A d \in AskedSet : (<<"a", "b">> \in DOMAIN pr /\ <<"b", "a">> \notin DOMAIN pr) =>
   Q(d, "b", "a") = {<<RDiv(ROne, x[1]), x[2]>> : x \in Q(d, "a", "b")}
LawNone == \A d \in AskedSet : Q(d, "a", "a") = {<<ROne, "Exact">>} /\ Q(d, "a", "z") = {<<ROne, "None">>}
                               /\ (pr = NoPrices => Q(d, "a", "b") = {<<ROne, "None">>})
\* between recorded prices the quote stays between them, and moves by equal steps per day
LawLinear == \A p \in DOMAIN pr : \A d \in AskedSet :
   LET ds == {pr[p][n][1] : n \in 1..Len(pr[p])}
       lo == {x \in ds : x < d}  hi == {x \in ds : x > d}
   IN (d \notin ds /\ lo # {} /\ hi # {}) =>
        \A q \in ListQuote(pr[p], d) : q[2] = "Inferred" /\
          \E x \in ListQuote(pr[p], Max(lo)), y \in ListQuote(pr[p], Min(hi)) :
             RMul(RSub(q[1], x[1]), ROf(DayNo(Min(hi)) - DayNo(Max(lo)))) = RMul(RSub(y[1], x[1]), ROf(DayNo(d) - DayNo(Max(lo))))
LawOutside == \A p \in DOMAIN pr : \A d \in AskedSet :
   LET ds == {pr[p][n][1] : n \in 1..Len(pr[p])}
   IN (d < Min(ds) \/ d > Max(ds)) => \A q \in ListQuote(pr[p], d) : q[2] = "OutOfRange" /\
        \E n \in 1..Len(pr[p]) : pr[p][n] = <<IF d < Min(ds) THEN Min(ds) ELSE Max(ds), q[1]>>
ask(u, c) == [i \in 1..Len(Asked) |-> [op |-> "price", d |-> Asked[i], u |-> u, c |-> c]]
EmitProg == Emit /\ Len(rec) > 0 => PrintT("@@PROG " \o ToJson([ev |-> << [op |-> "build", txns |-> << >>, prices |-> rec] >>
    \o ask("a", "b") \o ask("b", "a") \o << [op |-> "iter", u |-> "a", c |-> "b", ds |-> Asked] >>]))
=============================================================================
