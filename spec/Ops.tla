--------------------------------- MODULE Ops ---------------------------------
(* Operation strings: what a user writes to transform a book, and the macros   *)
(* that stand for sequences of them.                                           *)
(*                                                                             *)
(* ReadOp gives the operation a text spells, [k |-> "bad"] when it spells none *)
(* or [k |-> "unclear"] when that is not specified.  What regular expressions  *)
(* do to names is the environment's business: rx[re] = [m, r] gives the names   *)
(* re matches (m) and the result of replacing by each template (r[rep][name]); *)
(* an expression that is not in rx is not a regular expression.                *)
EXTENDS Book

BadOp == [k |-> "bad"]
OddOp == [k |-> "unclear"]
IsLet(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
\* the word before the first "=": letters, digits and _ after a letter; "" when there is none
OpWord(txt) ==
  LET w == SSplit(txt, "=")[1]
      cs == SCodes(w)
  IN IF w = txt \/ cs = << >> THEN ""
     ELSE IF IsLet(cs[1]) /\ \A n \in 1..Len(cs) : IsLet(cs[n]) \/ IsDig(cs[n]) \/ cs[n] = 95 THEN w ELSE ""

\* "/a/b/.../" as the sequence of what is between the slashes, << >> when it is not of that form
Slashed(txt) == LET ps == SSplit(txt, "/") IN
  IF Len(ps) >= 3 /\ ps[1] = "" /\ ps[Len(ps)] = "" /\ \A n \in 2..(Len(ps) - 1) : ps[n] # ""
  THEN SubSeq(ps, 2, Len(ps) - 1) ELSE << >>

IsFactor(txt) == LET cs == SCodes(txt) IN
  /\ \A n \in 1..Len(cs) : IsDig(cs[n]) \/ cs[n] = 46
  /\ \E n \in 1..Len(cs) : IsDig(cs[n])
  /\ \A n, m \in 1..Len(cs) : cs[n] = 46 /\ cs[m] = 46 => n = m
FactorOf(txt) == LET ps == SSplit(txt, ".") IN RDec("0" \o ps[1] \o (IF Len(ps) = 2 /\ ps[2] # "" THEN "." \o ps[2] ELSE ""))
\* a whole number without its leading zeros
Bare(cs) == LET RECURSIVE Z(_)
                Z(n) == IF n <= Len(cs) /\ cs[n] = 48 THEN Z(n + 1) ELSE SubSeq(cs, n, Len(cs))
            IN Z(1)

ReadOp(txt, rx, today) ==
  LET w == OpWord(txt)
      act == SDropPrefix(txt, w \o "=")
      ps == Slashed(act)
      rxok == Len(ps) >= 2 /\ ps[1] \in DOMAIN rx
  IN CASE w = "mapccy" -> IF Len(ps) = 2 /\ rxok THEN [k |-> "mapccy", re |-> ps[1], rep |-> ps[2]] ELSE BadOp
       [] w = "map" -> IF Len(ps) \in {2, 3} /\ rxok
                       THEN [k |-> "map", re |-> ps[1], rep |-> ps[2], alt |-> IF Len(ps) = 3 THEN ps[3] ELSE ""] ELSE BadOp
       [] w = "move" -> IF Len(ps) = 3 /\ rxok THEN IF IsFactor(ps[3]) THEN [k |-> "move", re |-> ps[1], rep |-> ps[2], f |-> FactorOf(ps[3])] ELSE BadOp
                        ELSE BadOp
       [] w = "depreciate" ->
            IF Len(ps) = 3 /\ rxok
            THEN LET cs == Bare(SCodes(ps[3])) IN
                 IF ~AllDig(cs) \/ cs = << >> \/ Len(cs) > 19 THEN BadOp
                 ELSE IF Len(cs) > 9 THEN OddOp
                 ELSE [k |-> "depreciate", re |-> ps[1], rep |-> ps[2], n |-> Num(cs)]
            ELSE BadOp
       [] w \in {"since", "asof"} ->
            LET d == ParseDate(act, today) IN
            IF d # 0 THEN [k |-> w, d |-> d] ELSE IF Unclear(act) THEN OddOp ELSE BadOp
       [] w = "combine" -> IF SLower(act) \in {"yearly", "quarterly", "monthly", "today", "none"} THEN [k |-> "combine", by |-> SLower(act)] ELSE BadOp
       [] OTHER -> BadOp

\* the sequence of operations that a text stands for; a macro's name takes
\* precedence over the operation it may spell, and a macro that is part of its
\* own expansion spells nothing
RECURSIVE Expand(_, _, _, _, _)
Expand(txt, macros, rx, today, up) ==
  IF txt \in DOMAIN macros
  THEN IF txt \in up THEN <<BadOp>>
       ELSE FlattenSeq([n \in 1..Len(macros[txt]) |-> Expand(macros[txt][n], macros, rx, today, up \cup {txt})])
  ELSE <<ReadOp(txt, rx, today)>>
ReadOps(ops, macros, rx, today) == FlattenSeq([n \in 1..Len(ops) |-> Expand(ops[n], macros, rx, today, {})])
Spelled(os, what) == \E n \in 1..Len(os) : os[n].k = what

MapTable(bk, o, rx) == [a \in AcctsOf(bk) |-> IF o.alt # "" /\ a \notin DOMAIN rx[o.re].m THEN o.alt ELSE rx[o.re].r[o.rep][a]]
MatchTable(names, o, rx) == [a \in names \cap DOMAIN rx[o.re].m |-> rx[o.re].r[o.rep][a]]
PriceCcys(bk) == {p[1] : p \in DOMAIN bk.price} \cup {p[2] : p \in DOMAIN bk.price}
ApplyOp(bk, o, rx, today) ==
  CASE o.k = "map" -> MapAcct(bk, MapTable(bk, o, rx))
    [] o.k = "mapccy" -> MapCcy(bk, MatchTable(CcysOf(bk) \cup PriceCcys(bk) \cup DOMAIN bk.dec, o, rx))
    [] o.k = "move" -> Move(bk, MatchTable(AcctsOf(bk), o, rx), o.f)
    [] o.k = "depreciate" -> Depreciate(bk, MatchTable(AcctsOf(bk), o, rx), o.n)
    [] o.k = "since" -> Since(bk, o.d)
    [] o.k = "asof" -> AsOf(bk, o.d)
    [] o.k = "combine" -> Combine(bk, o.by, today)
    [] OTHER -> bk
\* strictly left to right
ApplyOps(bk, os, rx, today) == FoldLeft(LAMBDA b, o : ApplyOp(b, o, rx, today), bk, os)
=============================================================================
