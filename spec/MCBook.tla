-------------------------------- MODULE MCBook -------------------------------
(* Exhaustive small model of Book.tla: every program of at most Depth         *)
(* operations over every start book, with the laws the properties state       *)
(* checked in every state (the step that led there is in `last`).  With Emit  *)
(* the programs themselves are printed; the conformance step replays each on  *)
(* the real program.                                                          *)
EXTENDS Book, Json, IOUtils

CONSTANTS Focus, Depth, Emit

VARIABLES bk, prev, prog
vars == <<bk, prev, prog>>

Today == 20261119
P(a, c, v) == [a |-> a, c |-> c, v |-> v, n |-> ""]
Two(d, p, a, b, c, v) == [d |-> d, p |-> p, n |-> "", ps |-> <<P(a, c, v), P(b, c, RNeg(v))>>]

\* ---- start books
Books == <<
  [txns |-> << Two(20200131, "p", "A:1", "B", "x", "10/1"), Two(20200229, "p", "A:2", "B", "x", "-10/1"),
               Two(20200301, "q", "A:1", "A:2", "y", "7/3") >>,
   prices |-> << [d |-> 20200101, u |-> "y", c |-> "x", v |-> "2/1"], [d |-> 20200401, u |-> "y", c |-> "x", v |-> "3/1"] >>],
  [txns |-> << Two(20191231, "p", "A:1", "B", "x", "1/1"), Two(20191231, "p", "A:1", "A:2", "x", "-1/1"),
               Two(20200101, "p", "A:1", "B", "y", "5/2") >>,
   prices |-> << [d |-> 20191231, u |-> "x", c |-> "y", v |-> "4/1"] >>],
  [txns |-> << [d |-> 20200630, p |-> "q", n |-> "t",
                ps |-> << P("A:1", "x", "3/1"), P("B", "x", "-1/1"), P("A:2", "x", "-2/1"), P("A:1", "y", "1/1"), P("B", "y", "-1/1") >>],
               Two(20200701, "q", "A:1", "A:2", "x", "-3/1") >>, prices |-> << >>],
  [txns |-> << >>, prices |-> << >>] >>

\* ---- operation alphabet (with the tables of what each expression does)
Names == {"A:1", "A:2", "B", "A", "C"}
Tbl(S, F(_)) == [a \in S |-> F(a)]
Id(a) == a
ToA(a) == "A"
ToB(a) == "B"
ToC(a) == "C"
Swap(a) == CASE a = "A:1" -> "B" [] OTHER -> a
As == {"A:1", "A:2"}

MapOps == <<
  [op |-> "map", re |-> "^A:.*$", rep |-> "A", alt |-> "", ren |-> [a \in Names |-> IF a \in As THEN "A" ELSE a]],
  [op |-> "map", re |-> "^A:1$", rep |-> "B", alt |-> "", ren |-> Tbl(Names, Swap)],
  [op |-> "map", re |-> "^B$", rep |-> "B", alt |-> "C", ren |-> [a \in Names |-> IF a = "B" THEN "B" ELSE "C"]],
  [op |-> "map", re |-> "^.*$", rep |-> "C", alt |-> "", ren |-> Tbl(Names, ToC)] >>
MoveOps == <<
  [op |-> "move", re |-> "^A:1$", rep |-> "C", f |-> "0.1", tbl |-> Tbl({"A:1"}, ToC)],
  [op |-> "move", re |-> "^A:.*$", rep |-> "A", f |-> "1", tbl |-> Tbl(As, ToA)],
  [op |-> "move", re |-> "^B$", rep |-> "B", f |-> "0.7", tbl |-> Tbl({"B"}, ToB)],
  [op |-> "move", re |-> "^.*$", rep |-> "B", f |-> "0.3", tbl |-> Tbl(Names, ToB)] >>
DeprOps == <<
  [op |-> "depreciate", re |-> "^A:1$", rep |-> "C", n |-> 3, tbl |-> Tbl({"A:1"}, ToC)],
  [op |-> "depreciate", re |-> "^A:.*$", rep |-> "B", n |-> 2, tbl |-> Tbl(As, ToB)],
  [op |-> "depreciate", re |-> "^B$", rep |-> "B", n |-> 1, tbl |-> Tbl({"B"}, ToB)],
  [op |-> "depreciate", re |-> "^A:2$", rep |-> "A:1", n |-> 13, tbl |-> [a \in {"A:2"} |-> "A:1"]] >>
WinOps == <<
  [op |-> "since", arg |-> "2020-02-29"], [op |-> "asof", arg |-> "2020/02/29"], [op |-> "since", arg |-> "2020"],
  [op |-> "asof", arg |-> "20200301"], [op |-> "asof", arg |-> "1/1/2020"], [op |-> "since", arg |-> "2020-07"] >>
CombOps == << [op |-> "combine", by |-> "monthly"], [op |-> "combine", by |-> "quarterly"],
              [op |-> "combine", by |-> "yearly"], [op |-> "combine", by |-> "none"] >>
CcyOps == << [op |-> "mapccy", re |-> "^x$", rep |-> "y", ren |-> [c \in {"x"} |-> "y"]],
             [op |-> "mapccy", re |-> "^.$", rep |-> "z", ren |-> [c \in {"x", "y", "z"} |-> "z"]],
             [op |-> "mapccy", re |-> "^y$", rep |-> "w", ren |-> [c \in {"y"} |-> "w"]] >>
ConvOps == << [op |-> "convert", base |-> "x"], [op |-> "convert", base |-> "y"] >>

Kinds == [map |-> MapOps, move |-> MoveOps, depreciate |-> DeprOps, window |-> WinOps, combine |-> CombOps,
          mapccy |-> CcyOps, convert |-> ConvOps]
\* the operations of the kind in focus, and some of every other kind
Alphabet == UNION {LET q == Kinds[k] IN {q[i] : i \in (IF k = Focus \/ Focus = "all" THEN 1..Len(q) ELSE {1})} : k \in DOMAIN Kinds}

ApplyOp(b, e) ==
  CASE e.op = "map"        -> MapAcct(b, e.ren)
    [] e.op = "move"       -> Move(b, e.tbl, RDec(e.f))
    [] e.op = "depreciate" -> Depreciate(b, e.tbl, e.n)
    [] e.op = "since"      -> Since(b, ParseDate(e.arg, Today))
    [] e.op = "asof"       -> AsOf(b, ParseDate(e.arg, Today))
    [] e.op = "combine"    -> Combine(b, e.by, Today)
    [] e.op = "mapccy"     -> MapCcy(b, e.ren)
    [] e.op = "convert"    -> Convert(b, e.base)

\* prices stay unambiguous unless currencies were merged before
Merged == \E n \in 1..Len(prog) : prog[n].op = "mapccy"
Init == \E n \in 1..Len(Books) :
   /\ bk = Build(Books[n].txns, Books[n].prices)
   /\ prev = EmptyBook
   /\ prog = << [op |-> "build", txns |-> Books[n].txns, prices |-> Books[n].prices] >>
Next == /\ Len(prog) <= Depth
        /\ \E e \in Alphabet :
             /\ ~(e.op = "convert" /\ Merged)
             /\ bk' = ApplyOp(bk, e) /\ prev' = bk /\ prog' = Append(prog, e)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ laws
Done == prog[Len(prog)]
Is(k) == Len(prog) > 1 /\ Done.op = k
ShowTrans(b, t) == LET ks == SetToSortSeq({k \in DOMAIN b.post : <<KDate(k), KPayee(k)>> = t}, KeyLt) IN ks
Show(b) == \* the canonical view of a book
  LET ks == KeySeq(b)
      run == PrefixSums([i \in 1..Len(ks) |-> <<<<KAcct(ks[i]), KCcy(ks[i])>>, b.post[ks[i]].v>>])
      ts == SetToSortSeq(TransOf(b), TransLt)
      idx(t) == SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : <<KDate(ks[i]), KPayee(ks[i])>> = t)
  IN [n \in 1..Len(ts) |->
       LET ix == idx(ts[n]) IN
       [d |-> ts[n][1], p |-> ts[n][2],
        ps |-> [j \in 1..Len(ix) |-> LET k == ks[ix[j]] IN
                  [a |-> KAcct(k), c |-> KCcy(k), v |-> b.post[k].v, b |-> run[ix[j]], d |-> KDate(k), p |-> KPayee(k)]]]]

TotalBy(b, F(_)) == LET ks == SetToSeq(DOMAIN b.post) IN
   LET s == SumBy([i \in 1..Len(ks) |-> <<F(ks[i]), b.post[ks[i]].v>>])
   IN [x \in {y \in DOMAIN s : s[y] # RZero} |-> s[x]]
Amounts(b) == [k \in DOMAIN b.post |-> b.post[k].v]

\* C02
InvBalanced == Balanced(bk)
\* C03: the specification's own view passes the checks the real one is put to
InvView == LET v == Show(bk) IN ViewCanonical(v) /\ ViewBalances(v) /\ ViewAmounts(bk, v)
\* C04
LawMap == Is("map") =>
  TotalBy(prev, LAMBDA k : <<KDate(k), KPayee(k), Done.ren[KAcct(k)], KCcy(k)>>) = TotalBy(bk, Id)
\* C05
LawMove == Is("move") =>
  LET f == RDec(Done.f)
      m(k) == KAcct(k) \in DOMAIN Done.tbl
      ks == DOMAIN prev.post \cup DOMAIN bk.post
      val(b, k) == IF k \in DOMAIN b.post THEN b.post[k].v ELSE RZero
      recv(k) == FoldSet(LAMBDA j, a : RAdd(a, RMul(f, prev.post[j].v)), RZero,
                   {j \in DOMAIN prev.post : m(j) /\ Done.tbl[KAcct(j)] = KAcct(k)
                        /\ <<KDate(j), KPayee(j), KCcy(j)>> = <<KDate(k), KPayee(k), KCcy(k)>>})
  IN \A k \in ks : val(bk, k) = RAdd(recv(k), IF m(k) THEN RMul(RSub(ROne, f), val(prev, k)) ELSE val(prev, k))
\* C06
LawDepr == Is("depreciate") =>
  LET tgt == {Done.tbl[a] : a \in DOMAIN Done.tbl}
      acct(b, a) == TotalBy([b EXCEPT !.post = [k \in {x \in DOMAIN @ : KAcct(x) = a} |-> @[k]]],
                            LAMBDA k : <<KPayee(k), KCcy(k)>>)
  IN /\ \A a \in AcctsOf(prev) \cup AcctsOf(bk) : acct(bk, a) = acct(prev, a)    \* totals per payee unchanged
     /\ \A k \in DOMAIN bk.post : k \notin DOMAIN prev.post =>                   \* new dates are the posting's or month starts
          \E j \in DOMAIN prev.post : KPayee(j) = KPayee(k) /\ (KDate(k) = KDate(j) \/ (Day(KDate(k)) = 1 /\ KDate(k) > KDate(j)))
\* C07
LawWindow == (Is("since") \/ Is("asof")) =>
  LET d == ParseDate(Done.arg, Today)
      w(b) == IF Done.op = "since" THEN Since(b, d) ELSE AsOf(b, d)
      o(b) == IF Done.op = "since" THEN AsOf(b, d) ELSE Since(b, d)
  IN /\ w(bk) = bk
     /\ DOMAIN o(prev).post \cup DOMAIN bk.post = DOMAIN prev.post
     /\ DOMAIN o(prev).post \cap DOMAIN bk.post = {}
     /\ \A k \in DOMAIN bk.post : bk.post[k] = prev.post[k]
\* C08
LawCombine == (Is("combine") /\ Done.by # "today") =>
  /\ TotalBy(prev, LAMBDA k : <<KAcct(k), KCcy(k)>>) = TotalBy(bk, LAMBDA k : <<KAcct(k), KCcy(k)>>)
  /\ \A k \in DOMAIN bk.post : KPayee(k) = "" /\ FloorBy(KDate(k), Done.by, 0, Today) = KDate(k)
  /\ Combine(bk, Done.by, Today).post = bk.post
  /\ Done.by # "none" => \A k \in DOMAIN bk.post : \E j \in DOMAIN prev.post :
        KDate(k) <= KDate(j) /\ KDate(j) < FloorBy(KDate(k), Done.by, 1, Today)
\* C11
LawConvert == Is("convert") =>
  /\ CcysOf(bk) \subseteq {Done.base}
  /\ Convert(bk, Done.base).post = bk.post
  /\ LET ks == SetToSeq(DOMAIN prev.post)
         want == SumBy([n \in 1..Len(ks) |-> <<<<KDate(ks[n]), KPayee(ks[n]), KAcct(ks[n]), Done.base>>,
                    RMul(prev.post[ks[n]].v, TheQuote(prev, KDate(ks[n]), KCcy(ks[n]), Done.base)[1])>>])
     IN Amounts(bk) = [k \in {x \in DOMAIN want : want[x] # RZero} |-> want[k]]
  \* what was in the base currency only stays as it was
  /\ \A k \in DOMAIN prev.post : KCcy(k) = Done.base /\
        (\A j \in DOMAIN prev.post : <<KDate(j), KPayee(j), KAcct(j)>> = <<KDate(k), KPayee(k), KAcct(k)>> => j = k)
        => k \in DOMAIN bk.post /\ bk.post[k].v = prev.post[k].v
\* C12
LawMapCcy == Is("mapccy") =>
  /\ \A c \in CcysOf(bk) \cup {p[1] : p \in DOMAIN bk.price} \cup {p[2] : p \in DOMAIN bk.price} :
        c \in DOMAIN Done.ren => Done.ren[c] = c
  /\ TotalBy(prev, LAMBDA k : <<KDate(k), KPayee(k), KAcct(k), RenCcy(Done.ren, KCcy(k))>>) = Amounts(bk)
  /\ FoldSet(LAMBDA p, a : a + Len(bk.price[p]), 0, DOMAIN bk.price)
       = FoldSet(LAMBDA p, a : a + Len(prev.price[p]), 0, DOMAIN prev.price)
\* C10: the three cases of a quote are exclusive, and it is exact on its dates
LawQuote == \A p \in DOMAIN bk.price : \A n \in 1..Len(bk.price[p]) :
   LET x == bk.price[p][n] IN p[1] # p[2] => <<x[2], "Exact">> \in Quote(bk, x[1], p[1], p[2])

EmitProg == Emit /\ Len(prog) > 1 =>
   PrintT("@@PROG " \o ToJson([ev |-> Append(prog, [op |-> "view"])]))
=============================================================================
