-------------------------------- MODULE MCPage -------------------------------
(* Reading all transactions from a bank that gives them in pages of Limit, in *)
(* order of time, from a time on (or after a transaction): for every layout   *)
(* of transactions in time, also several pages within one unit (a minute),    *)
(* transactions arriving or changing in between, and requests failing.  Time  *)
(* is in minutes; the client reads on one minute before the latest it knows,  *)
(* or after the last transaction once that leads no further.                  *)
EXTENDS Sync, Json
CONSTANTS Limit, MaxTx, MaxT, MaxArrive, Block, Emit
ASSUME Emit => Block * Limit = 100  \* the page size of the program

VARIABLES txs,    \* the bank's transactions, in order: [t, v]
          incl,   \* whether "from a time on" includes that time
          first,  \* how many there were when the reading began, and in which version
          pc, from, byid, seen, held, got
vars == <<txs, incl, first, pc, from, byid, seen, held, got>>

\* every way n transactions may lie in time
RECURSIVE Layouts(_)
Layouts(n) == IF n = 0 THEN {<< >>} ELSE UNION {{<<t>> \o s : s \in {x \in Layouts(n - 1) : x = << >> \/ t <= x[1]}} : t \in 0..MaxT}
Init == /\ \E n \in 0..MaxTx : \E l \in Layouts(n) : txs = [k \in 1..n |-> [t |-> l[k], v |-> 1]]
        /\ incl \in BOOLEAN
        /\ first = [k \in DOMAIN txs |-> txs[k].v]
        /\ pc = "page" /\ from = [k |-> "start", x |-> 0] /\ byid = FALSE /\ seen = {} /\ held = << >> /\ got = 0

\* the indices the bank answers with
PageFrom(f) ==
  LET ok(k) == CASE f.k = "start" -> TRUE [] f.k = "time" -> (IF incl THEN txs[k].t >= f.x ELSE txs[k].t > f.x) [] OTHER -> k > f.x
      s == {k \in DOMAIN txs : ok(k)}
  IN {k \in s : Cardinality({j \in s : j < k}) < Limit}
Page ==
  /\ pc = "page"
  /\ LET p == PageFrom(from)
         new == p \ seen
         lastof == CHOOSE k \in p : \A j \in p : txs[j].t < txs[k].t \/ (txs[j].t = txs[k].t /\ j <= k)
     IN IF p = {} THEN pc' = "done" /\ UNCHANGED <<from, byid, seen, held, got>>
        ELSE /\ held' = [k \in p |-> txs[k].v] @@ held
             /\ seen' = seen \cup p
             /\ got' = got + 1
             /\ IF Cardinality(p) < Limit THEN pc' = "done" /\ UNCHANGED <<from, byid>>
                ELSE IF new = {} /\ byid THEN pc' = "stuck" /\ UNCHANGED <<from, byid>>
                ELSE /\ byid' = (byid \/ new = {})
                     /\ from' = IF byid' THEN [k |-> "id", x |-> lastof] ELSE [k |-> "time", x |-> txs[lastof].t - 1]
                     /\ pc' = pc
  /\ UNCHANGED <<txs, incl, first>>
Fail == pc = "page" /\ pc' = "failed" /\ held' = << >> /\ UNCHANGED <<txs, incl, first, from, byid, seen, got>>
Arrive == /\ pc = "page" /\ Len(txs) < Len(first) + MaxArrive
          /\ \E t \in (IF txs = << >> THEN 0 ELSE txs[Len(txs)].t)..MaxT : txs' = Append(txs, [t |-> t, v |-> 1])
          /\ UNCHANGED <<incl, first, pc, from, byid, seen, held, got>>
Change == /\ pc = "page" /\ MaxArrive > 0
          /\ \E k \in DOMAIN txs : txs[k].v = 1 /\ txs' = [txs EXCEPT ![k].v = 2]
          /\ UNCHANGED <<incl, first, pc, from, byid, seen, held, got>>
Next == Page \/ Fail \/ Arrive \/ Change
Fairness == WF_vars(Page)
Spec == Init /\ [][Next]_vars /\ Fairness

\* nothing that was there is missed, in the version it had or a later one
LawComplete == pc = "done" => \A k \in DOMAIN first : k \in DOMAIN held /\ held[k] >= first[k]
LawTold == \A k \in DOMAIN held : k \in DOMAIN txs /\ held[k] <= txs[k].v
LawNeverStuck == pc # "stuck"
LawEnds == <>(pc # "page")
\* no page is read more than about twice
LawCost == got <= 2 * (Len(txs) + 1)

\* the same layout at the size of the program: Block transactions for each, within a second
Items == [n \in 1..(Len(txs) * Block) |-> LET k == ((n - 1) \div Block) + 1 IN
            <<"tx_" \o SOfInt(n), 60 * txs[k].t - 10 * Day, 1, 0>>]
EmitLayout == Emit /\ pc = "page" /\ got = 0 /\ Len(txs) > 0 /\ Len(txs) = Len(first) /\ (\A k \in DOMAIN txs : txs[k].v = 1) =>
   PrintT("@@PROG " \o ToJson([ev |-> <<
     [op |-> "file", kind |-> "monzo", form |-> "json", at |-> "plain", tok |-> "good"],
     [op |-> "bank", kind |-> "monzo", payees |-> 1, req |-> 1, pad |-> 0, insts |-> 1, expires |-> 86400, old |-> "all", incl |-> incl, desc |-> FALSE,
      accounts |-> <<[id |-> "acc_1", listed |-> TRUE, v |-> 1, items |-> Items]>>],
     [op |-> "sync", all |-> FALSE], [op |-> "sync", all |-> FALSE]>>]))
=============================================================================
