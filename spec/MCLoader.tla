------------------------------- MODULE MCLoader ------------------------------
(* Every small ledger, written line by line while the loader reads it: each   *)
(* step appends a line to the file being read and consumes it; including a    *)
(* file starts a new file, ending it returns to the including one.  The laws  *)
(* are checked in every state; finished ledgers are printed (Emit) and loaded *)
(* by the program.                                                            *)
EXTENDS Loader, Json
CONSTANTS Depth, MaxFiles, Focus, Emit

VARIABLES st,     \* what was read so far (Loader.tla)
          stack,  \* frames [f, al] of the files being read, innermost first
          docs,   \* the lines written so far per file: sequences of [x, t]
          steps
vars == <<st, stack, docs, steps>>

T(d, p) == [x |-> [t |-> "txn", d |-> d, p |-> p, n |-> ""], t |-> DateText(d) \o " " \o p]
P(a, c, v, txt) == [x |-> [t |-> "post", a |-> a, amt |-> TRUE, c |-> c, v |-> ROf(v), n |-> ""], t |-> "  " \o a \o "  " \o txt]
N(a) == [x |-> [t |-> "post", a |-> a, amt |-> FALSE, c |-> "", v |-> RZero, n |-> ""], t |-> "  " \o a]
A(s, l) == [x |-> [t |-> "alias", s |-> s, l |-> l], t |-> "alias " \o s \o "=" \o l]
Pr(v) == [x |-> [t |-> "price", d |-> 20200101, u |-> "x", c |-> "y", v |-> ROf(v)], t |-> "P 2020/01/01 00:00:00 x y" \o SOfInt(v)]
B(txt) == [x |-> Bad, t |-> txt]
LinesFor == [
  amounts |-> {T(20200101, "p"), T(20200101, "q"), P("A", "x", 1, "x1"), P("B", "x", -1, "-1 x"), P("B", "y", -2, "y -2.00"), N("C"), N("A"), Pr(2), B("  A  5")},
  scope   |-> {T(20200101, "p"), P("S", "x", 1, "x1"), N("B"), A("S", "A"), A("S", "B"), A("B", "S"), Pr(2)} ]
Alphabet == LinesFor[Focus]
F(k) == IF k = 1 THEN "main.ledger" ELSE "f" \o SOfInt(k) \o ".ledger"

Init == st = Load0 /\ stack = <<[f |-> 1, al |-> NoAlias]>> /\ docs = << << >> >> /\ steps = 0
Top == stack[1]
Write(k, l) == docs' = [docs EXCEPT ![k] = Append(@, l)]
Read(l) == /\ Write(Top.f, l)
           /\ IF l.x.t = "alias" THEN /\ stack' = [stack EXCEPT ![1].al = (l.x.s :> l.x.l) @@ @] /\ st' = st
              ELSE stack' = stack /\ st' = Line(st, Top.al, l.x)
Push == /\ Len(docs) < MaxFiles
        /\ LET k == Len(docs) + 1
               l == [x |-> [t |-> "include", f |-> F(k)], t |-> "include " \o F(k)] IN
           /\ docs' = Append([docs EXCEPT ![Top.f] = Append(@, l)], << >>)
           /\ stack' = <<[f |-> k, al |-> Top.al]>> \o stack
        /\ st' = st
Pop == Len(stack) > 1 /\ stack' = Tail(stack) /\ UNCHANGED <<st, docs>>
\* a file read before is included once more, in its own scope
Again == /\ MaxFiles > 1 /\ \E k \in 2..Len(docs) :
              /\ \A n \in 1..Len(stack) : stack[n].f # k
              /\ docs' = [docs EXCEPT ![Top.f] = Append(@, [x |-> [t |-> "include", f |-> F(k)], t |-> "include " \o F(k)])]
              /\ st' = LoadFile([p \in {<<F(n)>> : n \in 1..Len(docs)} |->
                                   LET n == CHOOSE m \in 1..Len(docs) : F(m) = p[1] IN [j \in 1..Len(docs[n]) |-> docs[n][j].x]],
                                <<F(k)>>, st, Top.al, {<<F(stack[n].f)>> : n \in 1..Len(stack)})
              /\ stack' = stack
Next == /\ steps < Depth /\ st.s = "ok"
        /\ steps' = steps + 1
        /\ \/ \E l \in Alphabet : Read(l)
           \/ Push \/ Pop \/ Again
Spec == Init /\ [][Next]_vars

Files == [k \in 1..Len(docs) |-> [n |-> F(k), l |-> [j \in 1..Len(docs[k]) |-> docs[k][j].x]]]
\* the whole-file reading of Loader.tla is this machine
Final == IF st.s = "ok" /\ ~Settled(st) THEN [st EXCEPT !.s = "bad"] ELSE st
LawWhole == LET w == LoadLines(Files, F(1)) IN w.s = Final.s /\ (w.s = "ok" => w = Final)
\* the notation reads each line as what it was written for
LawNotation == \A k \in 1..Len(docs) : \A j \in 1..Len(docs[k]) : ReadLine(SCodes(docs[k][j].t)) = docs[k][j].x
\* C01: what loads is balanced in every currency, transaction by transaction
LawBalanced == Final.s = "ok" =>
   /\ Balanced(LoadedBook(Final))
   /\ \A n \in 1..Len(st.txns) : LET ps == st.txns[n].ps s == SumBy([j \in 1..Len(ps) |-> <<ps[j].c, ps[j].v>>]) IN \A c \in DOMAIN s : s[c] = RZero
\* C22: an amount-less posting settles the transaction
LawSettles == [][\A k \in 1..Len(docs) : (k <= Len(docs) /\ docs'[k] # docs[k] /\ docs'[k][Len(docs'[k])].x.t = "post"
                   /\ ~docs'[k][Len(docs'[k])].x.amt /\ st'.s = "ok") => Settled(st')]_vars
\* C23: returning from an include restores the aliases of the including file, and those in force there
LawScope == [][Len(stack') < Len(stack) => stack' = Tail(stack)]_vars
\* C23: without aliases, including is inserting
RECURSIVE Inline(_)
Inline(k) == FlattenSeq([j \in 1..Len(docs[k]) |->
   LET x == docs[k][j].x IN IF x.t # "include" THEN <<x>>
   ELSE Inline(CHOOSE m \in 2..Len(docs) : F(m) = x.f)])
NoAliases == \A k \in 1..Len(docs) : \A j \in 1..Len(docs[k]) : docs[k][j].x.t # "alias"
LawInline == NoAliases => LET w == LoadLines(<<[n |-> "one", l |-> Inline(1)]>>, "one") IN w.s = Final.s /\ (w.s = "ok" => w = Final)

Texts == [k \in 1..Len(docs) |-> [n |-> F(k), t |-> SJoin([j \in 1..Len(docs[k]) |-> docs[k][j].t \o "\n"], "")]]
EmitDocs == Emit /\ (steps = Depth \/ st.s # "ok") => PrintT("@@PROG " \o ToJson([ev |-> <<[op |-> "load", main |-> F(1), files |-> Texts]>>]))
=============================================================================
