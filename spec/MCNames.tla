-------------------------------- MODULE MCNames ------------------------------
(* Transactions of one date and payee are kept apart by numbering.  Exhaustive*)
(* small model: every sequence of at most Len transactions over payees that   *)
(* are, or read like, numbered ones, on one or two dates, each with amounts   *)
(* of its own.  Laws: no two transactions share a key, each one's postings    *)
(* are exactly its own (so it balances), its name is the given one when that  *)
(* is free, else the given one and the smallest number that is.               *)
EXTENDS Book, Json

CONSTANTS Longest, Emit

VARIABLES txns
vars == <<txns>>

Base == {"p", "p (2)", "p (3)", "p (2) (2)", ""}
Dates == {20200229, 20200301}
Amt(k) == SOfInt(k) \o "/1"
Txn(k, d, p) == [d |-> d, p |-> p, n |-> "", ps |-> << [a |-> "A", c |-> "x", v |-> Amt(k), n |-> ""],
                                                      [a |-> "B", c |-> "x", v |-> RNeg(Amt(k)), n |-> ""] >>]
Init == txns = << >>
\* the second date only at the ends, as what precedes on another date does not matter
Next == \/ /\ Len(txns) < Longest
           /\ \E p \in Base : txns' = Append(txns, Txn(Len(txns) + 1, 20200229, p))
        \/ /\ Len(txns) = Longest
           /\ \E p \in {"p", ""} : txns' = Append(txns, Txn(Len(txns) + 1, 20200301, p))
Spec == Init /\ [][Next]_vars

bkOf == Build(txns, << >>)
Free(names, p) == IF p \notin names THEN p
                  ELSE LET u == {k \in 2..(Len(txns) + 1) : p \o " (" \o SOfInt(k) \o ")" \notin names}
                       IN p \o " (" \o SOfInt(CHOOSE k \in u : \A j \in u : k <= j) \o ")"
\* the names the transactions of each date end up with, in order
Named == FoldLeft(LAMBDA ns, t : Append(ns, <<t.d, Free({ns[m][2] : m \in {m \in 1..Len(ns) : ns[m][1] = t.d}}, t.p)>>), << >>, txns)
LawApart == LET b == bkOf
                nm == Named
            IN /\ Cardinality(TransOf(b)) = Len(txns)
               /\ \A k \in 1..Len(txns) :
                    {<<KAcct(q), b.post[q].v>> : q \in {q \in DOMAIN b.post : <<KDate(q), KPayee(q)>> = nm[k]}}
                      = {<<"A", Amt(k)>>, <<"B", RNeg(Amt(k))>>}
InvBalanced == Balanced(bkOf)
EmitProg == Emit /\ Len(txns) > 1 =>
   PrintT("@@PROG " \o ToJson([ev |-> << [op |-> "build", txns |-> txns, prices |-> << >>], [op |-> "view"] >>]))
=============================================================================
