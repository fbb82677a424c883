-------------------------------- MODULE MCOps --------------------------------
(* Every short list of operation texts over every small macro table: what it   *)
(* means is what inlining the macros step by step gives, sequences compose     *)
(* left to right, and exactly the tables in which a macro used reaches itself, *)
(* or something used spells no operation, are refused (C31).  With Emit the     *)
(* lists are replayed on the real program.                                     *)
EXTENDS Ops, Json, IOUtils
CONSTANTS Texts, Body, Len0, Emit
VARIABLES macros, ops, stage
vars == <<macros, ops, stage>>

Today == 20261119
P(a, v) == [a |-> a, c |-> "x", v |-> v, n |-> ""]
Txns == << [d |-> 20200131, p |-> "p", n |-> "", ps |-> <<P("A", "4/1"), P("B", "-4/1")>>],
           [d |-> 20200229, p |-> "p", n |-> "", ps |-> <<P("B", "1/1"), P("C", "-1/1")>>],
           [d |-> 20200301, p |-> "p", n |-> "", ps |-> <<P("A", "3/1"), P("C", "-3/1")>>] >>
Start == Build(Txns, << >>)
Names == {"A", "B", "C", "x"}
All(v) == [a \in Names |-> v]
One(s, v) == [m |-> [a \in {s} |-> TRUE], r |-> [t \in {v} |-> [a \in Names |-> IF a = s THEN v ELSE a]]]
Rx == ("A" :> One("A", "B")) @@ ("B" :> [m |-> [a \in {"B"} |-> TRUE], r |-> ("C" :> [a \in Names |-> IF a = "B" THEN "C" ELSE a]) @@ ("A" :> [a \in Names |-> IF a = "B" THEN "A" ELSE a])])
      @@ ("C" :> One("C", "A"))
Syms == <<"m", "n", "map=/A/B/", "move=/B/A/0.5/", "map=/A/", "map=/B/C/", "since=2020-02-01", "combine=monthly", "map=/C/A/">>
Alpha == {Syms[n] : n \in 1..Texts}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init == macros \in {[x \in {"m"} |-> b] : b \in Seqs(Alpha \ {"n"}, Body)} \cup [{"m", "n"} -> Seqs(Alpha, Body)] /\ ops = << >> /\ stage = 0
Next == /\ stage = 0 /\ macros' = macros
        /\ \/ Len(ops) < Len0 /\ \E t \in Alpha : ops' = Append(ops, t) /\ stage' = 0
           \/ ops # << >> /\ ops' = ops /\ stage' = 1
Spec == Init /\ [][Next]_vars

Means(q) == ReadOps(q, macros, Rx, Today)
Refused(q) == Spelled(Means(q), "bad")
\* inlining, one level at a time, as often as a table without self-reference can need
Inline(q) == FlattenSeq([n \in 1..Len(q) |-> IF q[n] \in DOMAIN macros THEN macros[q[n]] ELSE <<q[n]>>])
Flat(q) == LET RECURSIVE F(_, _)
               F(x, k) == IF k = 0 THEN x ELSE F(Inline(x), k - 1)
           IN F(q, Cardinality(DOMAIN macros))
\* macros reached from a list
Used(q) == {q[n] : n \in 1..Len(q)} \cap DOMAIN macros
Reach(S) == LET RECURSIVE G(_, _)
                G(T, k) == IF k = 0 THEN T ELSE G(T \cup UNION {Used(macros[t]) : t \in T}, k - 1)
            IN G(S, Cardinality(DOMAIN macros))
Cyclic(q) == \E t \in Reach(Used(q)) : t \in Reach(Used(macros[t]))
Texts0(q) == UNION {{w[n] : n \in 1..Len(w)} : w \in {q} \cup {macros[t] : t \in Reach(Used(q))}} \ DOMAIN macros
NoOp(t) == t \in {"map=/A/", "m", "n"}

LawRefused == stage = 1 => (Refused(ops) <=> Cyclic(ops) \/ \E t \in Texts0(ops) : NoOp(t))
LawInline == stage = 1 /\ ~Refused(ops) => Means(ops) = Means(Flat(ops))
LawSequence == stage = 1 /\ ~Refused(ops) =>
   ApplyOps(Start, Means(ops), Rx, Today) = FoldLeft(LAMBDA b, t : ApplyOps(b, Means(<<t>>), Rx, Today), Start, ops)
LawBalanced == stage = 1 /\ ~Refused(ops) => Balanced(ApplyOps(Start, Means(ops), Rx, Today))
EmitOps == Emit /\ stage = 1 =>
   PrintT("@@PROG " \o ToJson([ev |-> << [op |-> "build", txns |-> Txns, prices |-> << >>],
                                        [op |-> "ops", ops |-> ops, macros |-> macros] >>]))
=============================================================================
