-------------------------------- MODULE MCHtml --------------------------------
(* Web pages of every small report: accounts in a tree with gaps, texts that    *)
(* look like markup, plain and summarised, hidden rows.  Laws (C35): boxes are   *)
(* properly nested, reports stand side by side, a row is in as many boxes as its *)
(* level says, and a reader sees every row with its texts and nothing else.      *)
(* With Emit the reports are replayed on the real program.                       *)
EXTENDS Forms, Html, Json
CONSTANTS Deep, Emit

VARIABLES ledger, run
vars == <<ledger, run>>
Today == 20261119
P(a, c, v) == [a |-> a, c |-> c, v |-> v]
T(d, p, ps) == [d |-> d, p |-> p, ps |-> ps]
Tree == {"A", "A:B", "A:B:C", "A:B&lt:D", "E:F:G"} \cup IF Deep THEN {"A:B:C:D:E", "A&amp"} ELSE {}
Payees == {"p", "", "<i>&b</i>"} \cup IF Deep THEN {"a &amp; b", "\"x\" > y"} ELSE {}
Ccys == {"x", "\"<y>\"", "$"}
Pattern == <<"7", "-5.5", "1000", "9">>
Sorted(as) == SetToSortSeq(as, SLt)
Neg(v) == IF SStarts(v, "-") THEN SDropPrefix(v, "-") ELSE "-" \o v
Posts(q, c, odd) == FlattenSeq([k \in 1..Len(q) |-> LET u == IF k = odd THEN "x" ELSE c IN <<P(q[k], u, Pattern[k]), P("Z", u, Neg(Pattern[k]))>>])
Init == /\ run = [cmd |-> ""]
        /\ ledger \in {<<T(20200115, p, Posts(Sorted(as), c, odd)), T(20210210, "q", <<P("A:B", c, "2"), P("E:F:G", c, "-2")>>)>> :
                          as \in {y \in SUBSET Tree : y # {} /\ Cardinality(y) <= IF Deep THEN 4 ELSE 3}, p \in Payees, c \in Ccys, odd \in {0, 1}}
                      \cup {<< >>}
Opt(n, v) == n :> v
YN == {"true", "false"}
Next == run.cmd = "" /\ ledger' = ledger
        /\ run' \in {[cmd |-> "report", cli |-> Opt("report.type", "HTML") @@ Opt("ccy", "x") @@ Opt("report.sum", sum) @@ Opt("report.combineby", by)
                        @@ Opt("report.hidden", h) @@ Opt("lang", lang)] :
                     sum \in YN, by \in {"none", "yearly"}, h \in {"", "A:B"}, lang \in {"en"} \cup IF Deep THEN {"de"} ELSE {}}
Spec == Init /\ [][Next]_vars
Done == run.cmd # ""

PostText(y) == "  " \o y.a \o "  " \o y.v \o " " \o y.c
Lines(l) == <<"P 2020/01/01 00:00:00 \"<y>\" x 1.5", "P 2020/01/01 00:00:00 $ x 2">> \o
   FlattenSeq([k \in 1..Len(l) |-> <<DateText(l[k].d) \o " " \o l[k].p>> \o [j \in 1..Len(l[k].ps) |-> PostText(l[k].ps[j])]])
Text == SJoin([k \in 1..Len(Lines(ledger)) |-> Lines(ledger)[k] \o "\n"], "")
Names == Tree \cup {"Z", "x", "<y>", "$", "E", "E:F", "A:B&lt"}
Env == [conf |-> TRUE, home |-> TRUE, xdg |-> FALSE]
St == Settings([p \in {"conf"} |-> NoFile], Env, "en", run.cmd, run.cli)
R == [cmd |-> run.cmd, ops |-> << >>, today |-> Today, rx |-> [x \in {} |-> ""], rm |-> [x \in {} |-> ""]]
Bk == LoadedBook(LoadTexts(<<[n |-> "m", t |-> Text]>>, "m"))
Out(st) == Outcome(Bk, R, st)

LawLoads == Done => LoadTexts(<<[n |-> "m", t |-> Text]>>, "m").s = "ok" /\ Out(St).k = "ok"
LawNested == Done => LET set == St o == Out(set) q == PageBoxes(o.bk, o.rows, set.s) st == Stacks(q) IN
   /\ WellNested(q)
   /\ \A n \in 1..Len(q) : (q[n] = "+report" => st[n] = <<"reports">>) /\ (q[n] = "-" => st[n] # << >>)
   /\ Cardinality({n \in 1..Len(q) : q[n] = "+report"}) = Len(o.rows)
LawRead == Done => LET set == St o == Out(set) q == PageBoxes(o.bk, o.rows, set.s) IN
   ReadRows(q) = FlattenSeq([x \in 1..Len(o.rows) |-> [j \in 1..Len(o.rows[x].ps) |-> LET y == o.rows[x].ps[j] IN
                    [rep |-> x, deep |-> y.l, top |-> <<"reports", "report", "posts">>, a |-> y.term, v |-> AmountText(o.bk, y, set.s)]]])
EmitRun == Emit /\ Done => PrintT("@@PROG " \o ToJson([ev |-> <<
   [op |-> "load", files |-> <<[n |-> "main.ledger", t |-> Text]>>, mains |-> <<"main.ledger">>, names |-> SetToSeq(Names)],
   [op |-> "cfg", at |-> "conf", set |-> [x \in {} |-> ""], macros |-> NoMacros],
   [op |-> "run", cmd |-> run.cmd, ops |-> << >>, cli |-> run.cli, env |-> Env, lang |-> "C.UTF-8", chk |-> << >>] >>]))
===============================================================================
