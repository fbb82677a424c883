------------------------------- MODULE Summary -------------------------------
(* The summarised report: subtotals over the account tree.                    *)
(*                                                                            *)
(* An account name is a path, its components separated by the divider.  A     *)
(* path is subtotalled when it is the deepest common ancestor (or self) of    *)
(* two accounts, or an account that holds another currency than the base one. *)
EXTENDS Book

PathsTo(a, div) == LET ps == SSplit(a, div) IN {SJoin(SubSeq(ps, 1, n), div) : n \in 1..Len(ps)} \ {""}
\* every path of every account, with its own prefixes (itself included)
PathTable(accts, div) == LET all == accts \cup UNION {PathsTo(a, div) : a \in accts}
                         IN [x \in all |-> PathsTo(x, div)]

Longest(S) == CHOOSE x \in S : \A y \in S : SStarts(x, y)      \* S is a chain of prefixes of one name
Subtotalled(bk, base, pt) ==
  LET as == AcctsOf(bk)
  IN {KAcct(k) : k \in {x \in DOMAIN bk.post : KCcy(x) # base}}
     \cup {Longest(pt[ab[1]] \cap pt[ab[2]]) : ab \in {x \in as \X as : x[1] # x[2] /\ pt[x[1]] \cap pt[x[2]] # {}}}

\* the rest of a name below its nearest subtotalled ancestor
TermOf(a, anc, div) == IF anc = {} THEN a ELSE SDropPrefix(a, Longest(anc) \o div)

Summary(bk, base, div, credit, hidden) ==
  LET pt == PathTable(AcctsOf(bk), div)
      sub == Subtotalled(bk, base, pt)
      nodes == AcctsOf(bk) \cup sub
      strict(a) == (pt[a] \ {a}) \cap sub
      own == {<<KAcct(k), KCcy(k)>> : k \in DOMAIN bk.post}
      quote == [x \in {<<KDate(k), KCcy(k)>> : k \in DOMAIN bk.post} |-> TheQuote(bk, x[1], x[2], base)[1]]
      keysOf(t) == {k \in DOMAIN bk.post : <<KDate(k), KPayee(k)>> = t}
      conv(k) == RMul(bk.post[k].v, quote[<<KDate(k), KCcy(k)>>])
      totals(t) == LET ks == keysOf(t) IN
         [n \in nodes |-> FoldSet(LAMBDA k, x : RAdd(conv(k), x), RZero, {k \in ks : n \in pt[KAcct(k)]})]
      shown(a, v) == IF a \in credit THEN RNeg(v) ELSE v
      \* the chain of nodes above and including n, outermost first
      chain == [n \in nodes |-> SetToSortSeq(pt[n] \cap nodes, LAMBDA x, y : x # y /\ SStarts(y, x))]
      before(tot, x, y) == \* siblings: larger totals first, then by name; parents before children
         LET cx == chain[x] cy == chain[y]
             m == CHOOSE j \in 0..Len(cx) : (\A i \in 1..j : i <= Len(cy) /\ cx[i] = cy[i]) /\ (j = Len(cx) \/ j = Len(cy) \/ cx[j + 1] # cy[j + 1])
         IN IF m = Len(cx) THEN Len(cx) < Len(cy)
            ELSE IF m = Len(cy) THEN FALSE
            ELSE RLt(tot[cy[m + 1]], tot[cx[m + 1]]) \/ (tot[cy[m + 1]] = tot[cx[m + 1]] /\ SLt(cx[m + 1], cy[m + 1]))
      rowsOf(t) ==
        LET tot == totals(t)
            order == SetToSortSeq(nodes, LAMBDA x, y : before(tot, x, y))
            subrow(n) == [a |-> n, c |-> base, v |-> shown(n, tot[n]), l |-> Cardinality(strict(n)), term |-> TermOf(n, strict(n), div)]
            ownrow(n, c) == LET k == <<t[1], t[2], n, c>> IN
               [a |-> n, c |-> c, v |-> shown(n, IF k \in DOMAIN bk.post THEN bk.post[k].v ELSE RZero),
                l |-> Cardinality(pt[n] \cap sub), term |-> IF n \in sub THEN "" ELSE TermOf(n, strict(n), div)]
            ccys(n) == SetToSortSeq({x[2] : x \in {y \in own : y[1] = n}}, SLt)
            rows(n) == IF n = hidden /\ hidden # "" THEN << >>
                       ELSE (IF n \in sub THEN <<subrow(n)>> ELSE << >>) \o [i \in 1..Len(ccys(n)) |-> ownrow(n, ccys(n)[i])]
        IN FlattenSeq([i \in 1..Len(order) |-> rows(order[i])])
      ts == SetToSortSeq(TransOf(bk), TransLt)
  IN [i \in 1..Len(ts) |-> [d |-> ts[i][1], p |-> ts[i][2], ps |-> rowsOf(ts[i])]]
=============================================================================
