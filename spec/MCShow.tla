-------------------------------- MODULE MCShow --------------------------------
(* What the register shows under every combination of its settings, and how     *)
(* tables look.  Laws (C17): descending is the reverse of ascending, a limit     *)
(* keeps the first or last part, a window keeps the entries dated inside it with *)
(* their balances, windows that meet part the entries, sections are the accounts *)
(* one by one and combining them keeps their entries.  Laws (C32): every line of *)
(* a table is equally wide, without colours nothing but the colours is missing,  *)
(* and every number can be read back to within half a unit of its last decimal.  *)
(* Laws (C34): on a terminal names give way and nothing else, the lines fit when *)
(* that can be, no narrower than needed and in proportion; with a pager nothing  *)
(* is lost.  With Emit the runs are replayed on the real program.                *)
EXTENDS Forms, Json
CONSTANTS Focus, Wide, Emit

VARIABLES ledger, run
vars == <<ledger, run>>
Today == 20261119

P(a, c, v) == [a |-> a, c |-> c, v |-> v]
T(d, p, ps) == [d |-> d, p |-> p, ps |-> ps]
Base3 == << T(20200130, "p", <<P("A", "x", "4"), P("B", "x", "-3"), P("C", "x", "-1")>>),
            T(20200131, "q", <<P("A", "x", "-2"), P("B", "x", "2"), P("A", "y", "1"), P("B", "y", "-1")>>),
            T(20200131, "p", <<P("B", "x", "1"), P("C", "x", "-1")>>),
            T(20200201, "p", <<P("A", "x", "-2"), P("C", "x", "2")>>) >>
Numbers == {"0.005", "-1234.5", "999999", "-1000", "100000.25", "-0.10", "123456789012.125", "1"}
Ccys0 == {"x", "$", "\"u \"", "1€"}
Pairs == {"A", "éé", "A:long_name"}
LedgersOf == [
  register |-> {Base3, SubSeq(Base3, 1, 2), << >>},
  screen   |-> {<<T(20200130, p, <<P(a, c, v), P("B", c, IF SStarts(v, "-") THEN SDropPrefix(v, "-") ELSE "-" \o v)>>)>> :
                   v \in IF Wide THEN Numbers ELSE {"0.005", "-1234.5", "123456789012.125"}, c \in {"x", "$", "\"u \"", "É"}, a \in {"A", "A:long_name"}, p \in {"p", "日本 é"}},
  term     |-> {Base3} \cup {<<T(20200130, p, <<P(a, "x", v), P("B", "x", IF SStarts(v, "-") THEN SDropPrefix(v, "-") ELSE "-" \o v)>>),
                             T(20200131, "p", <<P("A:long_name", "x", "1"), P("C", "x", "-1")>>)>> :
                   v \in IF Wide THEN Numbers ELSE {"0.005", "-1234.5"}, a \in {"A", "éé"}, p \in {"p", "日本 a rather long name é"}} ]
Begins == {"", "2020-01-31", "nope"} \cup (IF Wide THEN {"2020-02-01", "2019"} ELSE {})
Ends == {"", "2020-02-01"} \cup (IF Wide THEN {"2020-01-31", "nope"} ELSE {})
YN == {"true", "false"}
Opt(n, v) == n :> v
Terms == {[w |-> w, h |-> h, pager |-> p] : w \in IF Wide THEN {1, 20, 33, 34, 35, 36, 39, 43, 44, 45, 50, 60, 80} ELSE {1, 35, 44, 60}, h \in IF Wide THEN {2, 4, 5, 6, 24} ELSE {4, 5, 24}, p \in BOOLEAN}
RunsOf == [
  register |-> {[cmd |-> "register", ops |-> << >>, arg |-> re, cli |->
                   Opt("register.begin", b) @@ Opt("register.asof", e) @@ Opt("register.count", k) @@ Opt("register.asc", asc)
                   @@ Opt("register.combined", comb) @@ Opt("register.split", sp) @@ Opt("all", al) @@ Opt("colour", "false")] :
                b \in Begins, e \in Ends, k \in {"0", "1", "2", "-2"}, asc \in YN, comb \in YN, sp \in YN, al \in YN, re \in {"^.*$", "^A"}},
  screen   |-> {[cmd |-> "register", ops |-> q, arg |-> "^.*$", cli |-> Opt("register.combined", comb) @@ Opt("lang", lang) @@ Opt("colour", col)] :
                q \in {<< >>, <<"move=/^A.*$/M/0.333/">>}, comb \in YN, lang \in {"en", "de", "fr"}, col \in YN}
               \cup {[cmd |-> "report", ops |-> q, arg |-> "", cli |-> Opt("lang", lang) @@ Opt("colour", col) @@ Opt("report.sum", "true") @@ Opt("ccy", "x")
                          @@ Opt("report.type", "Text") @@ Opt("report.combineby", by)] :
                      q \in {<< >>}, lang \in {"en", "nl"}, col \in YN, by \in {"none", "yearly"}},
  term     |-> {x @@ [term |-> t] : t \in Terms,
                x \in {[cmd |-> "register", ops |-> << >>, arg |-> re, cli |-> Opt("register.combined", comb) @@ Opt("colour", col)] : re \in {"^.*$", "^A"}, comb \in YN, col \in YN}
                     \cup {[cmd |-> "report", ops |-> << >>, arg |-> "", cli |-> Opt("colour", col) @@ Opt("report.sum", "true") @@ Opt("ccy", "x") @@ Opt("report.type", "Text")] : col \in {"false"}}
                     \cup {[cmd |-> "accts", ops |-> << >>, arg |-> "^.*$", cli |-> Opt("colour", col) @@ Opt("all", "true")] : col \in {"true"}}}]

PostText(y) == "  " \o y.a \o "  " \o y.v \o " " \o y.c
Lines(l) == FlattenSeq([k \in 1..Len(l) |-> <<DateText(l[k].d) \o " " \o l[k].p>> \o [j \in 1..Len(l[k].ps) |-> PostText(l[k].ps[j])]])
Text == SJoin([k \in 1..Len(Lines(ledger)) |-> Lines(ledger)[k] \o "\n"], "")
Names == {"A", "B", "C", "M", "x", "y", "$", "u ", "É", "éé", "A:long_name"}
IsA(a) == SStarts(a, "A")
Init == ledger \in LedgersOf[Focus] /\ run = [cmd |-> ""]
Next == run.cmd = "" /\ run' \in RunsOf[Focus] /\ ledger' = ledger
Spec == Init /\ [][Next]_vars
Done == run.cmd # ""

\* the book is what the text says, which the loader's laws are about; here it is built directly
Bk == Build([k \in 1..Len(ledger) |-> [d |-> ledger[k].d, p |-> ledger[k].p, n |-> "",
                 ps |-> [j \in 1..Len(ledger[k].ps) |-> LET y == ledger[k].ps[j] IN
                           [a |-> y.a, c |-> SReplace(y.c, "\"", ""), v |-> RDec(y.v), n |-> ""]]]], << >>)
Env == [conf |-> TRUE, home |-> TRUE, xdg |-> FALSE]
St(cli) == Settings([p \in {"conf"} |-> NoFile], Env, "en", run.cmd, cli)
Rm(re) == [a \in {y \in Names : re = "^.*$" \/ IsA(y)} |-> TRUE]
R == [cmd |-> run.cmd, ops |-> run.ops, arg |-> run.arg, today |-> Today,
      rx |-> ("^A.*$" :> [m |-> [a \in {y \in Names : IsA(y)} |-> TRUE], r |-> ("M" :> [a \in Names |-> IF IsA(a) THEN "M" ELSE a])]),
      rm |-> ("^.*$" :> Rm("^.*$")) @@ ("^A" :> Rm("^A"))]
Out(cli) == Outcome(Bk, R, St(cli))
With(n, v) == (n :> v) @@ run.cli

Reg == Done /\ Focus = "register"
OkDate(t) == t # "nope"
LawRefused == Reg => ((Out(run.cli).k = "bad") <=> ~OkDate(run.cli["register.begin"]) \/ ~OkDate(run.cli["register.asof"]))
Both(F(_, _), x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k].acct = y[k].acct /\ F(x[k].es, y[k].es)
LawOrder == Reg /\ Out(run.cli).k = "ok" =>
   Both(LAMBDA x, y : x = Reverse(y), Out(With("register.asc", "true")).secs, Out(With("register.asc", "false")).secs)
\* the shown entries of the whole register, oldest first
Plainly(c) == ("register.count" :> "0") @@ ("register.asc" :> "true") @@ c
LawLimit == Reg /\ Out(run.cli).k = "ok" =>
   LET k == IntOf(run.cli["register.count"]) m == IF k < 0 THEN -k ELSE k IN
   Both(LAMBDA x, y : /\ Len(x) = IF k = 0 \/ Len(y) < m THEN Len(y) ELSE m
                      /\ x = IF k >= 0 THEN SubSeq(y, 1, Len(x)) ELSE SubSeq(y, Len(y) - Len(x) + 1, Len(y)),
        Out(With("register.asc", "true")).secs, Out(Plainly(run.cli)).secs)
LawWindow == Reg /\ Out(run.cli).k = "ok" =>
   LET b == ParseDate(run.cli["register.begin"], Today) e == ParseDate(run.cli["register.asof"], Today) IN
   Both(LAMBDA x, y : x = SelectSeq(y, LAMBDA z : z.d >= b /\ (e = 0 \/ z.d < e)),
        Out(Plainly(run.cli)).secs, Out(Plainly(("register.begin" :> "") @@ ("register.asof" :> "") @@ run.cli)).secs)
LawParts == Reg /\ Out(run.cli).k = "ok" /\ run.cli["register.begin"] # "" =>
   LET d == run.cli["register.begin"]
       part(b, e) == Out(Plainly(("register.begin" :> b) @@ ("register.asof" :> e) @@ run.cli)).secs IN
   \A k \in 1..Len(part("", "")) : part("", d)[k].es \o part(d, "")[k].es = part("", "")[k].es
Bag(q) == [x \in {q[k] : k \in 1..Len(q)} |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
Bare1(es) == [k \in 1..Len(es) |-> [f \in DOMAIN es[k] \ {"b"} |-> es[k][f]]]
LawCombined == Reg /\ Out(run.cli).k = "ok" =>
   LET of(comb) == Out(Plainly(("register.combined" :> comb) @@ ("all" :> "true") @@ run.cli)).secs IN
   Bag(Bare1(FlattenSeq([k \in 1..Len(of("false")) |-> of("false")[k].es]))) = Bag(Bare1(of("true")[1].es))
LawOwn == Reg /\ Out(run.cli).k = "ok" /\ run.cli["register.combined"] = "false" =>
   LET secs == Out(run.cli).secs IN
   /\ \A k \in 1..Len(secs) : \A j \in 1..Len(secs[k].es) : secs[k].es[j].a = secs[k].acct
   /\ \A k \in 2..Len(secs) : SLt(secs[k - 1].acct, secs[k].acct)

Scr == Done /\ Focus = "screen"
TextFor(cli) == TextOf(R, St(cli), Out(cli)).t
Strip(t) == FoldLeft(LAMBDA a, c : SReplace(a, Codes[c], ""), t, SetToSeq(DOMAIN Codes))
LawColour == Scr => Strip(TextFor(With("colour", "true"))) = TextFor(With("colour", "false"))
Blocks(t) == SSplit(t, "\n")
Widths(t) == {Cols(Blocks(Strip(t))[k]) : k \in 1..Len(Blocks(t))} \ {0}
LawWidth == Scr /\ run.cmd = "report" => Cardinality(Widths(TextFor(run.cli))) <= 1
\* section by section in a register
LawWidthReg == Scr /\ run.cmd = "register" => LET secs == Out(run.cli).secs IN
   \A k \in 1..Len(secs) : LET tab == TableText(RegisterTable(Out(run.cli).bk, secs[k].es, St(run.cli).s), On(run.cli, "colour"))
                          IN Cardinality(Widths(tab)) = 1
Unmark(t, lang) == SReplace(SReplace(t, Marks(lang)[1], ""), Marks(lang)[2], ".")
Half(dec) == RDiv(RTenth(dec), ROf(2))
LawNumbers == Scr => \A k \in DOMAIN Out(run.cli).bk.post :
   LET v == Out(run.cli).bk.post[k].v dec == DecOfCcy(Out(run.cli).bk, k[4]) lang == run.cli["lang"]
       back == Unmark(NumText(v, dec, lang), lang)
       w == IF SStarts(back, "-") THEN RNeg(RDec(SDropPrefix(back, "-"))) ELSE RDec(back)
   IN RLe(RAbs(RSub(v, w)), Half(dec)) /\ (RSign(v) < 0 <=> SStarts(back, "-"))
\* the cells of every line can be told apart and are complete: each amount and account is there
LawComplete == Scr /\ run.cmd = "register" => LET o == Out(run.cli) t == TextFor(("colour" :> "false") @@ run.cli) IN
   \A k \in 1..Len(o.secs) : \A j \in 1..Len(o.secs[k].es) : LET e == o.secs[k].es[j] IN
       SContains(t, e.p) /\ SContains(t, e.ca) /\ SContains(t, NumText(e.v, DecOfCcy(o.bk, e.c), run.cli["lang"]))


Ter == Done /\ Focus = "term"
ShownIn(cli, t) == ShownOf(R, St(cli), Out(cli), t)
AllOf(x) == x.direct \o x.rest
Tall == [run.term EXCEPT !.pager = FALSE]
Narrow == [run.term EXCEPT !.w = 1]
PartsIn(cli) == PartsOf(R, St(cli), Out(cli)).ps
\* the pager changes nothing of what is shown, is used only when something is too long, and gets all of that
LawPager == Ter => LET x == ShownIn(run.cli, run.term) ps == PartsIn(run.cli) IN
   /\ AllOf(x) = ShownIn(run.cli, Tall).direct
   /\ x.paged <=> run.term.pager /\ \E n \in 1..Len(ps) : Len(ps[n].rows) > run.term.h
   /\ ~x.paged => x.rest = ""
   /\ x.paged /\ run.cmd # "register" => x.direct = ""
Widest0(ps, n) == Total(Widest(ps[n].rows)) + Len(ps[n].may) - 1
Hard(ps, n) == LET ws == Widest(ps[n].rows) IN Total([c \in 1..Len(ws) |-> IF ps[n].may[c] THEN 0 ELSE ws[c]]) + Len(ws) - 1
\* as wide as the terminal, or as the table, or as what cannot give way
LawFit == Ter => LET ps == PartsIn(run.cli) IN \A n \in 1..Len(ps) :
   LET t == TableOn(ps[n].rows, On(run.cli, "colour"), ps[n].may, run.term)
       want == IF Widest0(ps, n) <= run.term.w THEN Widest0(ps, n) ELSE IF Hard(ps, n) <= run.term.w THEN run.term.w ELSE Hard(ps, n) IN
   Widths(t) = {want}
LawColourT == Ter => Strip(AllOf(ShownIn(With("colour", "true"), run.term))) = AllOf(ShownIn(With("colour", "false"), run.term))
\* every amount and date is still there, and each name as a beginning of it
LawHard == Ter => LET ps == PartsIn(run.cli) IN \A n \in 1..Len(ps) :
   LET ws == Narrowed(Widest(ps[n].rows), ps[n].may, run.term.w) w0 == Widest(ps[n].rows) IN
   \A c \in 1..Len(ws) : /\ ~ps[n].may[c] => ws[c] = w0[c]
                         /\ ws[c] <= w0[c]
\* what gives way does so in proportion (to within a column)
LawShare == Ter => LET ps == PartsIn(run.cli) IN \A n \in 1..Len(ps) :
   LET ws == Narrowed(Widest(ps[n].rows), ps[n].may, run.term.w) w0 == Widest(ps[n].rows)
       soft == Total(w0) + Len(w0) - 1 - Hard(ps, n) less == Total(w0) - Total(ws) IN
   \A c \in 1..Len(ws) : ps[n].may[c] => LET d == (w0[c] - ws[c]) * soft - w0[c] * less IN d <= 2 * soft /\ -d <= 2 * soft

EmitRun == Emit /\ Done => PrintT("@@PROG " \o ToJson([ev |-> <<
   [op |-> "load", files |-> <<[n |-> "main.ledger", t |-> Text]>>, mains |-> <<"main.ledger">>, names |-> SetToSeq(Names)],
   [op |-> "cfg", at |-> "conf", set |-> [x \in {} |-> ""], macros |-> NoMacros],
   (IF run.arg # "" THEN [arg |-> run.arg] ELSE [x \in {} |-> ""])
     @@ (IF Focus = "term" THEN [term |-> run.term] ELSE [x \in {} |-> ""])
     @@ [op |-> "run", cmd |-> run.cmd, ops |-> run.ops, cli |-> run.cli, env |-> Env, lang |-> "C.UTF-8", chk |-> << >>] >>]))
===============================================================================
