-------------------------------- MODULE MCSync -------------------------------
(* Histories of a bank and a state file: the bank changes, synchronisations   *)
(* finish or fail, in every order.  Laws: a finished one holds all the bank   *)
(* has, nothing is ever lost, repeating it changes nothing; and what counts   *)
(* as a proper outcome (MergeFaults) is exactly that: an outcome with one     *)
(* thing left out, kept old, added or garbled is not proper.                  *)
EXTENDS Sync, Json
CONSTANTS Kind, Depth, Emit
VARIABLES bnk, st, now, fresh, log
vars == <<bnk, st, now, fresh, log>>
Step == 15 * Day
Id(n) == "i" \o SOfInt(n)
\* what all kinds of bank have in common is in one record
Acct(n) == [id |-> "acc_" \o SOfInt(n), listed |-> TRUE, v |-> 1, ident |-> 1, spaces |-> 1, basic |-> 1, details |-> 1, created |-> -400 * Day,
            main |-> "c" \o SOfInt(n), goals |-> << >>, spend |-> << >>, items |-> << >>, pending |-> << >>, feeds |-> <<[cat |-> "c" \o SOfInt(n), items |-> << >>]>>]
Bank0 == [kind |-> Kind, op |-> "bank", payees |-> 1, req |-> 1, pad |-> 0, insts |-> 1, expires |-> 86400, old |-> "all", incl |-> TRUE, desc |-> FALSE, accounts |-> <<Acct(1)>>]
Init == bnk = Bank0 /\ st = (IF Kind = "nordigen" THEN ("institution" :> [v |-> 0, t |-> 0, g |-> ""]) @@ ("requisition" :> [v |-> 0, t |-> 0, g |-> ""]) ELSE EmptyState)
        /\ now = -200 * Day /\ fresh = TRUE /\ log = << >>
RECURSIVE SumOf(_)
SumOf(q) == IF q = << >> THEN 0 ELSE q[1] + SumOf(Tail(q))
NItems == SumOf([k \in 1..Len(bnk.accounts) |-> Len(bnk.accounts[k].items) + SumOf([c \in 1..Len(bnk.accounts[k].feeds) |-> Len(bnk.accounts[k].feeds[c].items)])])
\* the bank changes
AddTo(b, k, c, it) == IF Kind = "starling" THEN [b EXCEPT !.accounts[k].feeds[c].items = Append(@, it)] ELSE [b EXCEPT !.accounts[k].items = Append(@, it)]
Touch(b, k, c, n, t) == IF Kind = "starling" THEN [b EXCEPT !.accounts[k].feeds[c].items[n] = <<@[1], t, @[3] + 1>>]
                        ELSE [b EXCEPT !.accounts[k].items[n] = <<@[1], @[2], @[3] + 1, 0>>]
Later(t) == now' = now + t
Change ==
  \/ \E k \in 1..Len(bnk.accounts) : \E c \in 1..Len(bnk.accounts[k].feeds) : \E late \in {0, Step} :
       \* something new, told at once or (Starling) up to 15 days late
       /\ (Kind = "starling" \/ (c = 1 /\ late = 0)) /\ NItems < 3
       /\ bnk' = AddTo(bnk, k, c, <<Id(NItems + 1), now - late, 1, 0>>) /\ Later(0)
  \/ \E k \in 1..Len(bnk.accounts) : \E c \in 1..Len(bnk.accounts[k].feeds) :
       LET its == IF Kind = "starling" THEN bnk.accounts[k].feeds[c].items ELSE bnk.accounts[k].items IN
       /\ Kind = "starling" \/ c = 1
       /\ \E n \in DOMAIN its : its[n][3] < 3 /\ bnk' = Touch(bnk, k, c, n, now) /\ Later(0)
  \/ Kind # "monzo" /\ bnk' = [bnk EXCEPT !.payees = @ + 1, !.req = @ + 1, !.accounts[1].ident = @ + 1, !.accounts[1].basic = @ + 1] /\ bnk.req < 3 /\ Later(0)
  \/ bnk' = [bnk EXCEPT !.accounts[1].v = @ + 1, !.accounts[1].details = @ + 1] /\ bnk.accounts[1].v < 2 /\ Later(0)
  \/ Len(bnk.accounts) < 2 /\ bnk' = [bnk EXCEPT !.accounts = Append(@, Acct(2)), !.req = @ + 1] /\ Later(0)
  \/ Len(bnk.accounts) = 2 /\ bnk' = [bnk EXCEPT !.accounts[2].listed = ~@, !.req = @ + 1] /\ Later(0)
  \/ Kind = "starling" /\ Len(bnk.accounts[1].feeds) < 2 /\ Later(0) /\ \E w \in {"goals", "spend"} :
        bnk' = [bnk EXCEPT !.accounts[1] = [@ EXCEPT ![w] = <<"s">>, !.feeds = Append(@, [cat |-> "s", items |-> << >>]), !.spaces = @ + 1]]
  \/ now < -100 * Day /\ bnk' = bnk /\ Later(3 * Step)
Moved == Change /\ fresh' = (fresh /\ bnk' = bnk) /\ st' = st /\ log' = IF bnk' = bnk THEN log ELSE Append(log, bnk')
G(all) == Gives(bnk, st, all, "")
Sync(all) == /\ st' = MergeAll(st, {x \in G(all) : x.need}) /\ fresh' = TRUE /\ UNCHANGED <<bnk, now>>
             /\ log' = Append(log, [op |-> "sync", all |-> all])
Fails(n) == UNCHANGED <<bnk, st, now, fresh>> /\ log' = Append(log, [op |-> "sync", all |-> FALSE, fault |-> [n |-> n, kind |-> "500"]])
Next == /\ Len(log) < Depth
        /\ \/ Moved \/ (\E all \in (IF Kind = "starling" THEN BOOLEAN ELSE {FALSE}) : Sync(all)) \/ Fails(3)
Spec == Init /\ [][Next]_vars
View == <<bnk, st, now, fresh, Len(log), IF log = << >> THEN "" ELSE log[Len(log)].op>>

JustSynced == log # << >> /\ log[Len(log)].op = "sync" /\ "fault" \notin DOMAIN log[Len(log)]
\* everything the bank has and shows is held in its present version
Has(b) == CASE Kind = "monzo" -> MonzoGives(b, st, "") [] Kind = "starling" -> StarlingGives(b, st, TRUE) [] OTHER -> NordigenGives(b, st)
LawComplete == JustSynced => \A x \in Has(bnk) : x.k \in DOMAIN st /\ st[x.k].v = x.v
LawKept == [][\A k \in DOMAIN st : k \in DOMAIN st' /\ st'[k].v >= st[k].v]_vars
LawRepeat == JustSynced => \A all \in BOOLEAN : MergeAll(st, {x \in G(all) : x.need}) = st
LawProper == \A all \in BOOLEAN : LET g == G(all) new == MergeAll(st, {x \in g : x.need}) IN
   /\ Merged(st, g, new) /\ Merged(st, g, MergeAll(st, g))
   /\ \A k \in DOMAIN new : ~Merged(st, g, [x \in DOMAIN new \ {k} |-> new[x]])
   /\ \A k \in DOMAIN new : (\A y \in g : y.k = k => y.need) => \A w \in {-1, 0, new[k].v + 1} : (w # new[k].v) => ~Merged(st, g, [new EXCEPT ![k].v = w])
   /\ ~Merged(st, g, ("other/thing" :> [v |-> 1, t |-> 0, g |-> ""]) @@ new)
EmitHist == Emit /\ Len(log) = Depth =>
   PrintT("@@PROG " \o ToJson([ev |-> <<
     [op |-> "file", kind |-> Kind, form |-> IF now > -150 * Day THEN "gz" ELSE "json", at |-> "plain",
      tok |-> CASE Kind = "monzo" -> "good" [] Kind = "nordigen" -> "inst" [] OTHER -> "none"], Bank0>> \o log
     \o <<[op |-> "sync", all |-> FALSE], [op |-> "sync", all |-> FALSE]>>]))
=============================================================================
