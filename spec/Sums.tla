-------------------------------- MODULE Sums --------------------------------
(* Exact sums over sequences of keyed contributions.  The ...Def operators     *)
(* are the definitions; the operators without Def are the same functions       *)
(* evaluated by a TLC operator override for speed, and MCPrim.tla checks that  *)
(* both agree on every small input.                                            *)
EXTENDS Integers, Sequences, TLC, SequencesExt, Prim

\* the sum per key of a sequence of <<key, value>>
SumByDef(kvs) == FoldLeft(LAMBDA f, x : IF x[1] \in DOMAIN f THEN [f EXCEPT ![x[1]] = RAdd(@, x[2])] ELSE f @@ (x[1] :> x[2]),
                          [k \in {} |-> RZero], kvs)
SumBy(kvs) == SumByDef(kvs)

\* the running total per key after each element
PrefixSumsDef(kvs) == [i \in 1..Len(kvs) |->
   FoldLeft(LAMBDA a, x : IF x[1] = kvs[i][1] THEN RAdd(a, x[2]) ELSE a, RZero, SubSeq(kvs, 1, i))]
PrefixSums(kvs) == PrefixSumsDef(kvs)

\* contributions [k |-> key, v |-> amount, n |-> notes, t |-> transaction notes]
\* merged per key, dropping what sums to zero
AddContrib(f, c) ==
  IF c.k \in DOMAIN f
  THEN [f EXCEPT ![c.k] = [v |-> RAdd(@.v, c.v), n |-> @.n \cup c.n, t |-> @.t \cup c.t]]
  ELSE f @@ (c.k :> [v |-> c.v, n |-> c.n, t |-> c.t])
EmptyPost == [k \in {} |-> 0]
DropZero(f) == LET ks == {k \in DOMAIN f : f[k].v # RZero}
               IN IF ks = DOMAIN f THEN f ELSE [k \in ks |-> f[k]]
MergeDef(cs) == DropZero(FoldLeft(AddContrib, EmptyPost, cs))
Merge(cs) == MergeDef(cs)
=============================================================================
