------------------------------- MODULE Loader --------------------------------
(* Loading a ledger: the state machine that consumes the lines of a file and  *)
(* of the files it includes, with aliases in lexical scope, and yields the    *)
(* book, a refusal, or "the notation does not say".                           *)
EXTENDS Book, Notation

Load0 == [s |-> "ok", txns |-> << >>, open |-> [c \in {} |-> RZero], prices |-> << >>]
OpenCcys(st) == {c \in DOMAIN st.open : st.open[c] # RZero}
Settled(st) == OpenCcys(st) = {}

AddPost(st, a, c, v, n) ==
  [st EXCEPT !.txns[Len(st.txns)].ps = Append(@, [a |-> a, c |-> c, v |-> v, n |-> n]),
             !.open = IF c \in DOMAIN @ THEN [@ EXCEPT ![c] = RAdd(@, v)] ELSE @ @@ (c :> v)]
RenAcct(al, a) == IF a \in DOMAIN al THEN al[a] ELSE a

\* one line that neither includes a file nor names an alias
Line(st, al, x) ==
  CASE x.t = "skip" -> st
    [] x.t = "bad" -> [st EXCEPT !.s = "bad"]
    [] x.t = "unclear" -> [st EXCEPT !.s = "unclear"]
    [] x.t = "txn" -> IF ~Settled(st) THEN [st EXCEPT !.s = "bad"]
                      ELSE [st EXCEPT !.txns = Append(@, [d |-> x.d, p |-> x.p, n |-> x.n, ps |-> << >>])]
    [] x.t = "price" -> [st EXCEPT !.prices = Append(@, [d |-> x.d, u |-> x.u, c |-> x.c, v |-> x.v])]
    [] x.t = "post" -> IF st.txns = << >> THEN [st EXCEPT !.s = IF x.amt THEN "bad" ELSE "unclear"]
                       ELSE IF x.amt THEN AddPost(st, RenAcct(al, x.a), x.c, x.v, x.n)
                       ELSE FoldLeft(LAMBDA y, c : AddPost(y, RenAcct(al, x.a), c, RNeg(st.open[c]), x.n), st, SetToSeq(OpenCcys(st)))

\* ---- files: names relative to the including file, "." and ".." resolved
DirOf(path) == SubSeq(path, 1, Len(path) - 1)
Resolve(dir, name) ==
  LET parts == SSplit(name, "/")
  IN FoldLeft(LAMBDA p, w : IF w \in {"", "."} THEN p ELSE IF w = ".." THEN (IF p = << >> THEN p ELSE SubSeq(p, 1, Len(p) - 1)) ELSE Append(p, w),
              IF SStarts(name, "@ROOT@/") THEN << >> ELSE dir,
              IF SStarts(name, "@ROOT@/") THEN SubSeq(parts, 2, Len(parts)) ELSE parts)

RECURSIVE LoadFile(_, _, _, _, _)
\* fs: normal path -> sequence of read lines; st: what was read so far; al: aliases in force; up: files being read
LoadFile(fs, path, st, al, up) ==
  IF path \notin DOMAIN fs \/ path \in up THEN [st EXCEPT !.s = "bad"]
  ELSE FoldLeft(LAMBDA acc, x :
          IF acc.st.s # "ok" THEN acc
          ELSE IF x.t = "alias" THEN [acc EXCEPT !.al = (x.s :> x.l) @@ @]
          ELSE IF x.t = "include" THEN [acc EXCEPT !.st = LoadFile(fs, Resolve(DirOf(path), x.f), @, acc.al, up \cup {path})]
          ELSE [acc EXCEPT !.st = Line(@, acc.al, x)],
        [st |-> st, al |-> al], fs[path]).st

NoAlias == [a \in {} |-> ""]
\* files = sequence of [n, l], l the read lines
LoadLines(files, main) ==
  LET fs == [p \in {Resolve(<< >>, files[k].n) : k \in 1..Len(files)} |->
               files[CHOOSE k \in 1..Len(files) : Resolve(<< >>, files[k].n) = p].l]
      st == LoadFile(fs, Resolve(<< >>, main), Load0, NoAlias, {})
  IN IF st.s = "ok" /\ ~Settled(st) THEN [st EXCEPT !.s = "bad"] ELSE st
LinesOf(txt) == LET ls == SSplit(txt, "\n") IN [n \in 1..Len(ls) |-> ReadLine(SCodes(ls[n]))]
\* files = sequence of [n, t], t the text
LoadTexts(files, main) == LoadLines([k \in 1..Len(files) |-> [n |-> files[k].n, l |-> LinesOf(files[k].t)]], main)
LoadedBook(st) == Build(st.txns, st.prices)
=============================================================================
