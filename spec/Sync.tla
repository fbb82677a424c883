--------------------------------- MODULE Sync --------------------------------
(* Bank synchronisation (goledger download): what a bank has and gives away,  *)
(* what the state file holds, and what one run makes of the two.              *)
(*                                                                            *)
(* A state maps the key of every thing it holds to [v |-> version, t |-> time,*)
(* g |-> feed]; version -1 stands for something the bank never told.  Times   *)
(* are seconds relative to the present.                                       *)
EXTENDS Prim, TLC, FiniteSets, SequencesExt
Day == 86400
Window == 89 * Day       \* how far back Monzo's transactions are asked for once it refuses all of them
Lag == 20 * Day          \* how far back Starling's are asked for again (STARLING_DAYS_AGO, documented with --alldata)
Accs(b) == {b.accounts[k] : k \in 1..Len(b.accounts)}
Elems(s) == {s[k] : k \in 1..Len(s)}
LateOf(it) == IF Len(it) > 3 THEN it[4] ELSE 0
EmptyState == [k \in {} |-> [v |-> 0, t |-> 0, g |-> ""]]
StateOf(l) == [k \in {l[j][1] : j \in 1..Len(l)} |->
   LET e == CHOOSE x \in Elems(l) : x[1] = k IN [v |-> e[2], t |-> e[3], g |-> e[4]]]

\* What a run asks the bank for: a set of [k, v, t, g, need]; what is not needed
\* may or may not be given (a transaction that arrives while pages are read, or
\* older than the run has to look).
Item(k, it, g, need) == [k |-> k, v |-> it[3], t |-> it[2], g |-> g, need |-> need]
Thing(k, v) == [k |-> k, v |-> v, t |-> 0, g |-> "", need |-> TRUE]
MonzoGives(b, st, soft) ==
  {Thing("account/" \o a.id, a.v) : a \in {x \in Accs(b) : x.listed}} \cup
  UNION {LET refused == b.old = "window" IN
         {Item("transaction/" \o it[1], it, "", LateOf(it) = 0 /\ (soft # a.id \/ it[2] >= -Window)) :
            it \in {x \in Elems(a.items) : ~refused \/ x[2] >= -Window}}
         : a \in {x \in Accs(b) : x.listed \/ ("account/" \o x.id) \in DOMAIN st}}
\* from when on the changes of a feed are asked for: all, or from some days before the latest known
FeedSince(st, a, c, all) ==
  LET ts == {st[k].t : k \in {x \in DOMAIN st : st[x].g = a.id \o "/" \o c}} IN
  IF all \/ ts = {} THEN a.created
  ELSE LET m == CHOOSE x \in ts : \A y \in ts : y <= x IN IF m - Lag > a.created THEN m - Lag ELSE a.created
StarlingGives(b, st, all) ==
  {Thing("payees", b.payees)} \cup
  {Thing("account/" \o a.id, a.v) : a \in {x \in Accs(b) : x.listed}} \cup
  UNION {{Thing("identifiers/" \o a.id, a.ident), Thing("spaces/" \o a.id, a.spaces)} \cup
         UNION {LET s == FeedSince(st, a, f.cat, all) IN
                {Item("item/" \o a.id \o "/" \o f.cat \o "/" \o it[1], it, a.id \o "/" \o f.cat, it[2] >= s) : it \in Elems(f.items)}
                : f \in {x \in Elems(a.feeds) : x.cat \in {a.main} \cup Elems(a.goals) \cup Elems(a.spend)}}
         : a \in {x \in Accs(b) : x.listed \/ ("account/" \o x.id) \in DOMAIN st}}
NordigenGives(b, st) ==
  {Thing("requisition", b.req)} \cup
  UNION {{Thing("basic/" \o a.id, a.basic), Thing("details/" \o a.id, a.details)} \cup
         {Item("transaction/" \o a.id \o "/" \o it[1], it, "", TRUE) : it \in Elems(a.items)}
         : a \in {x \in Accs(b) : x.listed}}
Gives(b, st, all, soft) ==
  CASE b.kind = "monzo" -> MonzoGives(b, st, soft)
    [] b.kind = "starling" -> StarlingGives(b, st, all)
    [] b.kind = "nordigen" -> NordigenGives(b, st)

\* A finished run keeps what there was and holds all the bank gave, in its latest version.
MergeFaults(st, gives, new) ==
  LET need == {x \in gives : x.need}
      may == gives \ need
      nk == {x.k : x \in need}
      mk == {x.k : x \in may}
      nv == [k \in nk |-> (CHOOSE x \in need : x.k = k).v]
      mv == [k \in mk |-> (CHOOSE x \in may : x.k = k).v]
  IN UNION {
    {"lost " \o k : k \in (DOMAIN st \ DOMAIN new)},
    {"missing " \o k : k \in ((nk \ DOMAIN st) \ DOMAIN new)},
    {"invented " \o k : k \in (DOMAIN new \ (DOMAIN st \cup nk \cup mk))},
    {"garbled " \o k : k \in {x \in DOMAIN new : new[x].v = -1}},
    {"stale " \o k : k \in {x \in DOMAIN new \cap nk : new[x].v # -1 /\ new[x].v # nv[x]}},
    {"changed " \o k : k \in {x \in DOMAIN new \ nk : new[x].v # -1 /\ x \in DOMAIN st \cup mk
        /\ ~(x \in DOMAIN st /\ new[x].v = st[x].v) /\ ~(x \in mk /\ new[x].v = mv[x])}}}
Merged(st, gives, new) == MergeFaults(st, gives, new) = {}
\* the one outcome where nothing is left open
MergeAll(st, gives) ==
  LET ks == {x.k : x \in gives} IN
  [k \in DOMAIN st \cup ks |-> IF k \in ks THEN LET x == CHOOSE y \in gives : y.k = k IN [v |-> x.v, t |-> x.t, g |-> x.g] ELSE st[k]]
\* versions only: what a comparison of contents can see
Versions(st) == [k \in DOMAIN st |-> st[k].v]
=============================================================================
