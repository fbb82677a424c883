-------------------------------- MODULE MCText --------------------------------
(* Every small ledger with awkward names, notes and amounts, written line by   *)
(* line, transformed, and then put out in each form.  Laws: a book written in   *)
(* ledger form reads back as itself and a text that lost a line does not (C24); *)
(* the records of a book determine it (C25); a book's Beancount directives are   *)
(* consistent, and no longer so when one is left out or moved (C26).  With Emit  *)
(* the ledgers are put through the real program in every form.                  *)
EXTENDS Forms, Json
CONSTANTS Focus, Txns, Emit

VARIABLES lines, made, ops
vars == <<lines, made, ops>>

PoolsOf == [
  names   |-> [d |-> {20200131, 20201231}, p |-> {"p", "*s", "\"a;b \"", "q\"t", "", "é"}, tn |-> {"", "; n"},
               a |-> {"A", "B:c", "a'_&"}, c |-> {"x", "\"y z\"", "$"}, v |-> {"1"}, n |-> {"", " ; m \"q\""}, pr |-> {""}],
  amounts |-> [d |-> {20200131, 20200201}, p |-> {"p"}, tn |-> {""}, a |-> {"A", "B:c"}, c |-> {"x", "\"y z\""},
               v |-> {"1", "-1", "0.05", "-1,000.125", "12345678901234567890.5"}, n |-> {""},
               pr |-> {"", "P 2020/01/31 00:00:00 x \"y z\" 0.3", "P 2020/02/01 10:00:00 \"y z\" $ 1000"}],
  closing |-> [d |-> {20200131, 20200201}, p |-> {"p"}, tn |-> {""}, a |-> {"A", "B:c"}, c |-> {"x", "\"y z\""}, v |-> {"1", "-1"}, n |-> {""}, pr |-> {""}] ]
Pools == PoolsOf[Focus]
OpLists == {<< >>, <<"combine=yearly">>, <<"asof=2020-02-01">>, <<"mapccy=/^x$/y z/">>}
Today == 20261119
Names == {"A", "B:c", "a'_&", "x", "y z", "$", "C"}
Rx == ("^x$" :> [m |-> ("x" :> TRUE), r |-> ("y z" :> [y \in Names |-> IF y = "x" THEN "y z" ELSE y])])

Txn(d, p, tn, a, c, v, nt, b) == << DateText(d) \o " " \o p \o tn, " " \o a \o "  " \o v \o " " \o c \o nt, " " \o b >>
Text == SJoin([k \in 1..Len(lines) |-> lines[k] \o "\n"], "")
\* (the first price comes first, so that a note's end of line is always written)
Init == made = 0 /\ ops = <<"?">> /\ lines \in {IF pr = "" THEN << >> ELSE <<pr>> : pr \in Pools.pr}
Next == /\ ops = <<"?">>
        /\ \/ /\ made < Txns
              /\ \E d \in Pools.d, p \in Pools.p, tn \in Pools.tn, a \in Pools.a, c \in Pools.c, v \in Pools.v, nt \in Pools.n, b \in Pools.a :
                    a # b /\ (made = 0 \/ (tn = "" /\ nt = "" /\ (Focus = "names" => a = "A" /\ c = "x"))) /\ lines' = lines \o Txn(d, p, tn, a, c, v, nt, b)
              /\ made' = made + 1 /\ ops' = ops
           \/ made > 0 /\ ops' \in OpLists /\ UNCHANGED <<made, lines>>
Spec == Init /\ [][Next]_vars

Done == ops # <<"?">>
Loaded == LoadTexts(<<[n |-> "m", t |-> Text]>>, "m")
Bk == ApplyOps(LoadedBook(Loaded), ReadOps(ops, NoMacros, Rx, Today), Rx, Today)
LawLoads == Done => Loaded.s = "ok"

\* ---- ledger text, as one may write it
Q(t) == "\"" \o t \o "\""
PayeeText(p) == IF SContains(p, ";") \/ SStarts(p, "*") THEN Q(p) ELSE p
Exact(v) == RFixed(v, RDecNeed(v))
NoteText(t) == IF t = "" THEN "" ELSE " ; " \o t
Some(S) == CHOOSE x \in S : TRUE
WritePost(y) == "  " \o y.a \o "  " \o Q(y.c) \o " " \o Exact(y.v) \o NoteText(Some(y.n))
WriteRow(x) == << DateText(x.d) \o " " \o PayeeText(x.p) \o NoteText(Some(x.t)) >> \o [j \in 1..Len(x.ps) |-> WritePost(x.ps[j])]
WritePrices(b) == FlattenSeq(LET q == SetToSeq(DOMAIN b.price) IN [x \in 1..Len(q) |-> [y \in 1..Len(b.price[q[x]]) |->
    "P " \o DateText(b.price[q[x]][y][1]) \o " 00:00:00 " \o Q(q[x][1]) \o " " \o Q(q[x][2]) \o " " \o Exact(b.price[q[x]][y][2])]])
Written(b) == WritePrices(b) \o FlattenSeq(LET rs == PlainRows(b) IN [x \in 1..Len(rs) |-> WriteRow(rs[x])])
TextFrom(q) == SJoin([k \in 1..Len(q) |-> q[k] \o "\n"], "")
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
LawLedger == Done => LET b == Bk w == Written(b) IN
  Expressible(b) => /\ LedgerFaults(b, TextFrom(w), TRUE) = {}
                    /\ \A k \in 1..Len(w) : LedgerFaults(b, TextFrom(Without(w, k)), TRUE) # {}

\* ---- records
LawRecords == Done => LET b == Bk f == FlatRows(PlainRows(b)) IN
  [k \in {<<f[x].d, f[x].p, f[x].y.a, f[x].y.c>> : x \in 1..Len(f)} |->
     f[CHOOSE x \in 1..Len(f) : <<f[x].d, f[x].p, f[x].y.a, f[x].y.c>> = k].y.v] = [k \in DOMAIN b.post |-> b.post[k].v]
  /\ Len(f) = Cardinality(DOMAIN b.post)

\* ---- Beancount directives
AccountsT(b) == {STitle(a) : a \in AcctsOf(b)}
PostsOf(b, a) == {k \in DOMAIN b.post : STitle(KAcct(k)) = a}
FirstDay(b, a) == CHOOSE d \in {KDate(k) : k \in PostsOf(b, a)} : \A k \in PostsOf(b, a) : d <= KDate(k)
LastDay(b, a) == CHOOSE d \in {KDate(k) : k \in PostsOf(b, a)} : \A k \in PostsOf(b, a) : d >= KDate(k)
EmptyIn(b, a, c) == FoldSet(LAMBDA k, x : RAdd(b.post[k].v, x), RZero, {k \in PostsOf(b, a) : BeanCcy(KCcy(k)) = c}) = RZero
Emptied(b) == {a \in AccountsT(b) : \A k \in PostsOf(b, a) : EmptyIn(b, a, BeanCcy(KCcy(k)))}
Directives(b) ==
  [opens |-> LET q == SetToSeq(AccountsT(b)) IN [x \in 1..Len(q) |-> <<DateText(FirstDay(b, q[x])), q[x]>>],
   closes |-> LET q == SetToSeq(Emptied(b)) IN [x \in 1..Len(q) |-> <<DateText(NextDay(LastDay(b, q[x]))), q[x]>>],
   txns |-> LET rs == PlainRows(b) IN [x \in 1..Len(rs) |-> [d |-> DateText(rs[x].d), p |-> rs[x].p, n |-> Some(rs[x].t),
              ps |-> [j \in 1..Len(rs[x].ps) |-> LET y == rs[x].ps[j] IN [a |-> STitle(y.a), c |-> BeanCcy(y.c), v |-> y.v, n |-> Some(y.n)]]]],
   prices |-> FlattenSeq(LET q == SetToSeq(DOMAIN b.price) IN [x \in 1..Len(q) |-> [y \in 1..Len(b.price[q[x]]) |->
                 <<DateText(b.price[q[x]][y][1]), BeanCcy(q[x][1]), b.price[q[x]][y][2], BeanCcy(q[x][2])>>]])]
LawBean == Done => LET b == Bk g == Directives(b) IN
  /\ BeanFaults(b, g, TRUE) = {}
  /\ \A f \in {"opens", "closes", "txns", "prices"} : \A k \in 1..Len(g[f]) :
        BeanFaults(b, [g EXCEPT ![f] = Without(@, k)], TRUE) # {} /\ BeanFaults(b, [g EXCEPT ![f] = Append(@, @[k])], TRUE) # {}
  /\ \A k \in 1..Len(g.closes) : BeanFaults(b, [g EXCEPT !.closes[k] = <<DateText(LastDay(b, @[2])), @[2]>>], TRUE) # {}
  /\ \A k \in 1..Len(g.opens) : BeanFaults(b, [g EXCEPT !.opens[k] = <<DateText(NextDay(FirstDay(b, @[2]))), @[2]>>], TRUE) # {}

Env == [conf |-> TRUE, home |-> TRUE, xdg |-> FALSE]
NoCli == [x \in {} |-> ""]
ROps(cmd, ty) == [op |-> "run", cmd |-> cmd, ops |-> ops, cli |-> ((cmd \o ".type") :> ty), env |-> Env, lang |-> "C.UTF-8", chk |-> << >>]
EmitRuns == Emit /\ Done => PrintT("@@PROG " \o ToJson([ev |-> <<
   [op |-> "load", files |-> <<[n |-> "main.ledger", t |-> Text]>>, mains |-> <<"main.ledger">>, names |-> SetToSeq(Names)],
   [op |-> "cfg", at |-> "conf", set |-> ("report.sum" :> "false"), macros |-> NoMacros],
   ROps("export", "Ledger"), ROps("export", "Json"), ROps("export", "CSV"), ROps("export", "Beancount"),
   ROps("report", "Ledger"), ROps("report", "Json"), ROps("report", "Beancount"), ROps("report", "HTML"), ROps("report", "Text") >>]))
===============================================================================
