-------------------------------- MODULE Import -------------------------------
(* Bringing new transactions next to a reference ledger: leaving out what the *)
(* reference already has, and choosing counter-accounts by what it did before.*)
EXTENDS Book

\* deduplication: the transactions of bk whose date and payee the reference does not have
Dedup(bk, ref) == LET has == TransOf(ref) IN KeepWhere(bk, LAMBDA k : <<KDate(k), KPayee(k)>> \notin has)

\* transactions of exactly two postings one of which is on acct: <<date, payee>> -> the other account
Keys2(bk) == LET all == DOMAIN bk.post IN
   [t \in TransOf(bk) |-> {k \in all : KDate(k) = t[1] /\ KPayee(k) = t[2]}]
PairsOn(bk, acct) ==
  LET ks == Keys2(bk)
      ts == {t \in DOMAIN ks : Cardinality(ks[t]) = 2 /\ \E k \in ks[t] : KAcct(k) = acct}
  IN [t \in ts |-> KAcct(CHOOSE k \in ks[t] : KAcct(k) # acct)]

\* how often each counter-account of acct was used for each payee of the reference
Uses(ref, acct) ==
  LET pr == PairsOn(ref, acct)
      payees == {t[2] : t \in DOMAIN pr}
  IN [p \in payees |-> [a \in {pr[t] : t \in {u \in DOMAIN pr : u[2] = p}} |->
                          Cardinality({t \in DOMAIN pr : t[2] = p /\ pr[t] = a})]]
MostUsed(us) == {a \in DOMAIN us : \A b \in DOMAIN us : us[b] <= us[a]}

\* similarity: sim[p][q], absent where there is none
SimOf(sim, p, q) == IF p \in DOMAIN sim /\ q \in DOMAIN sim[p] THEN sim[p][q] ELSE RZero
\* the accounts that a transaction of this payee may be given: those most used by a
\* most similar payee; with no similar payee it keeps its own
Admissible(uses, sim, p, own) ==
  LET near == {q \in DOMAIN uses : RSign(SimOf(sim, p, q)) > 0}
      best == {q \in near : \A r \in near : ~RLt(SimOf(sim, p, q), SimOf(sim, p, r))}
  IN IF near = {} THEN {own} ELSE UNION {MostUsed(uses[q]) : q \in best}
\* per transaction concerned, the set of admissible accounts
ReclassChoices(bk, ref, acct, sim) ==
  LET pr == PairsOn(bk, acct)
      us == Uses(ref, acct)
  IN [t \in DOMAIN pr |-> Admissible(us, sim, t[2], pr[t])]
\* with a choice made (a function <<date, payee>> -> account)
Reclassed(bk, acct, choice) == RewriteSeq(bk, LAMBDA c :
   LET t == <<KDate(c.k), KPayee(c.k)>> IN
   IF t \in DOMAIN choice /\ KAcct(c.k) # acct
   THEN <<[c EXCEPT !.k = <<KDate(@), KPayee(@), choice[t], KCcy(@)>>]>> ELSE <<c>>)
=============================================================================
