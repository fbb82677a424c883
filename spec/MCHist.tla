-------------------------------- MODULE MCHist -------------------------------
(* Every history of operations over a book and its duplicate, with both sides *)
(* read in full after every step (C27).  The two sides only meet in the       *)
(* duplicate step; with Emit the histories are replayed on the real program.  *)
EXTENDS MCBook
VARIABLES dup, has
hvars == <<bk, prev, prog, dup, has>>

\* one operation of every kind
Ops == {Kinds[k][1] : k \in DOMAIN Kinds} \cup {Kinds["mapccy"][2], Kinds["convert"][2], Kinds["move"][2]}
OnDup(e) == e @@ [on |-> "dup"]
View == [op |-> "view", chk |-> << >>]
Memo(q) == [i \in 1..Len(q) |-> q[i] @@ [memo |-> 1]]
Reads == Memo(<< View, [op |-> "prices"], [op |-> "dec"],
            [op |-> "accumulate", base |-> "x", div |-> ":", credit |-> "A", hidden |-> "", chk |-> << >>],
            [op |-> "register", re |-> ".", base |-> "x", split |-> TRUE, chk |-> << >>],
            View, [op |-> "accts", re |-> "", all |-> FALSE], [op |-> "price", d |-> 20200201, u |-> "y", c |-> "x"] >>)
ReadAll(d) == IF d THEN Reads \o [i \in 1..Len(Reads) |-> OnDup(Reads[i])] ELSE Reads

HInit == Init /\ dup = EmptyBook /\ has = FALSE
MergedSide == \E n \in 1..Len(prog) : prog[n].op = "mapccy"
HNext == /\ Len(prog) <= Depth /\ prev' = prev
         /\ \/ /\ dup' = bk /\ has' = TRUE /\ UNCHANGED bk
               /\ prog' = Append(prog, [op |-> "duplicate"])
            \/ \E e \in Ops : /\ ~(e.op = "convert" /\ MergedSide)
                              /\ bk' = ApplyOp(bk, e) /\ UNCHANGED <<dup, has>>
                              /\ prog' = Append(prog, e)
            \/ \E e \in Ops : /\ has /\ ~(e.op = "convert" /\ MergedSide)
                              /\ dup' = ApplyOp(dup, e) /\ UNCHANGED <<bk, has>>
                              /\ prog' = Append(prog, OnDup(e))
HSpec == HInit /\ [][HNext]_hvars
\* an operation on one side leaves the other as it was
LawIndependent == [][/\ (\E e \in {prog'[Len(prog')]} : "on" \in DOMAIN e) => bk' = bk
                     /\ (\E e \in {prog'[Len(prog')]} : "on" \notin DOMAIN e /\ e.op # "duplicate") => dup' = dup]_hvars
InvBoth == Balanced(bk) /\ Balanced(dup)
HasDup(n) == \E m \in 1..n : prog[m].op = "duplicate"
EmitHist == Emit /\ Len(prog) > Depth /\ has =>
   PrintT("@@PROG " \o ToJson([ev |-> FlattenSeq([n \in 1..Len(prog) |-> <<prog[n]>> \o ReadAll(HasDup(n))]) \o <<[op |-> "again"]>>]))
=============================================================================
