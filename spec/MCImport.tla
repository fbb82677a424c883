------------------------------ MODULE MCImport ------------------------------
(* Small-scope model of deduplication and reclassification: every pair of     *)
(* books of up to two (Deep: three) transactions of an alphabet over two      *)
(* dates and three payees, every similarity between payees of a few shapes.   *)
EXTENDS Import, Json, IOUtils
CONSTANTS Emit, BSize, Size, Mode
VARIABLES bt, rt, bk, ref, done, sim
vars == <<bt, rt, bk, ref, done, sim>>

P(a, v) == [a |-> a, c |-> "x", v |-> ROf(v), n |-> ""]
Two(d, p, a, b) == [d |-> d, p |-> p, n |-> "t", ps |-> <<P(a, 3), P(b, -3)>>]
Three(d, p) == [d |-> d, p |-> p, n |-> "t", ps |-> <<P("A", 3), P("B", -2), P("C", -1)>>]
D1 == 20200101
D2 == 20200102
Txns == IF Mode = "dedup"
        THEN {Two(d, p, "A", "B") : d \in {D1, D2, 20191231}, p \in {"p", "pp", "P"}} \cup {Three(D1, "q")}
        ELSE {Two(D1, p, "A", "B") : p \in {"p", "q"}} \cup {Two(D1, p, "C", "A") : p \in {"p", "q", "r"}} \cup {Three(D1, "p"), Two(D2, "p", "B", "C")}
Half == "1/2"
Sims == IF Mode = "dedup" THEN {[p \in {} |-> [q \in {} |-> RZero]]}
        ELSE {[p \in {"p", "q", "r"} |-> [q \in {"p", "q", "r"} |-> IF p = q THEN s ELSE IF {p, q} = {"p", "q"} THEN t ELSE u]]
               : s \in {RZero, ROne}, t \in {RZero, Half, ROne}, u \in {RZero, Half}}
Prices == << >>
Init == /\ bt = << >> /\ rt = << >> /\ bk = EmptyBook /\ ref = EmptyBook /\ done = FALSE /\ sim \in Sims
Next == /\ ~done
        /\ \/ \E t \in Txns : Len(bt) < BSize /\ rt = << >> /\ bt' = Append(bt, t) /\ bk' = Build(bt', Prices) /\ UNCHANGED <<rt, ref, done, sim>>
           \/ \E t \in Txns : Len(bt) > 0 /\ Len(rt) < Size /\ rt' = Append(rt, t) /\ ref' = Build(rt', Prices) /\ UNCHANGED <<bt, bk, done, sim>>
           \/ Len(bt) > 0 /\ done' = TRUE /\ UNCHANGED <<bt, rt, bk, ref, sim>>
Spec == Init /\ [][Next]_vars

\* C19: a partition of the book by whether the reference has the transaction; idempotent
LawDedup == done /\ Mode = "dedup" => LET d == Dedup(bk, ref) IN
   /\ TransOf(d) = TransOf(bk) \ TransOf(ref)
   /\ \A k \in DOMAIN d.post : d.post[k] = bk.post[k]
   /\ \A k \in DOMAIN bk.post : <<KDate(k), KPayee(k)>> \in TransOf(d) => k \in DOMAIN d.post
   /\ Dedup(d, ref) = d /\ Dedup(bk, bk).post = EmptyPost /\ Dedup(bk, EmptyBook) = bk
   /\ Balanced(d)
\* C20: every admissible result has the same transactions and amounts, still balances, and the
\* postings on the account and all other transactions are as they were
Chs == ReclassChoices(bk, ref, "A", sim)
RECURSIVE Picks(_)
Picks(f) == IF DOMAIN f = {} THEN {<< >>}
                 ELSE LET t == CHOOSE x \in DOMAIN f : TRUE
                          g == [x \in DOMAIN f \ {t} |-> f[x]]
                      IN {(t :> a) @@ c : a \in f[t], c \in Picks(g)}
LawReclass == done /\ Mode = "reclass" => LET ch == Chs IN \A c \in Picks(ch) : LET r == Reclassed(bk, "A", c) IN
   /\ TransOf(r) = TransOf(bk) /\ Balanced(r)
   /\ \A k \in DOMAIN bk.post : (KAcct(k) = "A" \/ <<KDate(k), KPayee(k)>> \notin DOMAIN ch) => k \in DOMAIN r.post /\ r.post[k].v = bk.post[k].v
   /\ \A t \in DOMAIN ch : {r.post[k].v : k \in {x \in DOMAIN r.post : <<KDate(x), KPayee(x)>> = t}}
                            = {bk.post[k].v : k \in {x \in DOMAIN bk.post : <<KDate(x), KPayee(x)>> = t}}
   /\ (\A p \in DOMAIN sim : \A q \in DOMAIN sim[p] : sim[p][q] = RZero) => r = bk
\* what is admissible is never the account itself, always an account known to the reference or its own
LawChoices == done /\ Mode = "reclass" => LET ch == Chs IN \A t \in DOMAIN ch : ch[t] # {} /\ "A" \notin ch[t]
EmitProg == Emit /\ done => PrintT("@@PROG " \o ToJson([ev |-> <<
   [op |-> "build", txns |-> bt, prices |-> << >>],
   IF Mode = "dedup" THEN [op |-> "dedup", ref |-> [txns |-> rt, prices |-> << >>]]
   ELSE [op |-> "reclass", ref |-> [txns |-> rt, prices |-> << >>], acct |-> "A", sim |-> sim],
   [op |-> "view", chk |-> <<"amounts", "notes">>]>>]))
=============================================================================
