------------------------------- MODULE MCScript -------------------------------
(* Everything short that an import can be given.                               *)
(*   csv    every text over a small alphabet with every way to read it: a      *)
(*          table that was read and is written reads back; rows are read one   *)
(*          after the other; which character delimits does not matter          *)
(*   json   every sequence of JSON tokens: a value written reads back; white   *)
(*          space between tokens does not matter; a part is never a value with *)
(*          something left over                                                *)
(*   add    every combination of arguments of add(): what is added balances,   *)
(*          what is refused adds nothing, accounts and amounts are those given *)
(*   files  every list of files of transactions next to every small ledger:    *)
(*          nothing comes in twice, nothing is lost                            *)
(* With Emit each goes through the real program.                               *)
EXTENDS Script, Json
CONSTANTS Focus, Size, Emit

VARIABLES txt, done, arg
vars == <<txt, done, arg>>

NoArg == [x \in {} |-> ""]
Today == 20261119
S(v) == [e |-> "s", v |-> v]
I(v) == [e |-> "i", v |-> v]
\* ---- the alphabets: csv characters, json tokens, transactions (payee, amount) and ends of files
Alphabet == CASE Focus = "csv" -> {"a", ",", "\"", "\n", " ", ";"}
              [] Focus = "json" -> {"[", "]", "{", "}", ",", ":", "\"a\"", "\"", "-1.50", "true", "null", "\\u00e9", " "}
              [] Focus = "files" -> {"p 1", "p 2", "q 1", "|"}
              [] OTHER -> {}
\* ---- ways to read a text; arguments of add()
Ways == CASE Focus = "csv" -> {[type |-> "csv", params |-> (IF d = "," THEN NoArg ELSE ("delim" :> d)) @@ ("header" :> h)] : d \in {",", ";", " "}, h \in {"true", "false"}}
          [] Focus = "json" -> {[type |-> "json", params |-> NoArg]}
          [] Focus = "files" -> {[dedup |-> b, main |-> m] : b \in BOOLEAN, m \in {<< >>, <<"p">>, <<"p (2)">>, <<"p", "q">>}}
          [] OTHER -> {NoArg}
Full == Size > 1
AddPool == ("date" :> (IF Full THEN {S("2020-01-31"), S("no"), I("20200131")} ELSE {S("2020-01-31")})) @@ ("desc" :> {S("p")})
   @@ ("amt" :> {S("1.5"), S("x"), I("-7"), [e |-> "f", v |-> "0.1"], [e |-> "none"]} \cup (IF Full THEN {S("1/3"), S("-0"), [e |-> "b", v |-> "true"]} ELSE {}))
   @@ ("ccy" :> {S("y")}) @@ ("denom" :> {I("0"), I("-4")}) @@ ("account" :> {S("A"), S("M")})
   @@ ("amt2" :> {S("2"), [e |-> "none"]}) @@ ("ccy2" :> {S("z")}) @@ ("denom2" :> {I("3")} \cup (IF Full THEN {S("3")} ELSE {})) @@ ("account2" :> {S(""), S("T")})
   @@ ("caccount" :> {S("M"), S("C2")}) @@ ("note" :> {S("n")}) @@ ("lnote" :> {S("l")}) @@ (IF Full THEN ("wat" :> {S("1")}) ELSE NoArg)
Order == <<"amt", "amt2", "account2", "ccy2", "denom2", "ccy", "denom", "account", "caccount", "date", "desc">> \o (IF Full THEN <<"note", "lnote", "wat">> ELSE << >>)
Must == IF Full THEN {} ELSE {"date", "desc"}

Init == txt = << >> /\ done = FALSE /\ arg = NoArg
Next == /\ ~done
        /\ IF Focus = "add"
           THEN /\ Len(txt) < Len(Order)
                /\ LET n == Order[Len(txt) + 1] IN
                   /\ txt' = Append(txt, n)
                   /\ \/ n \notin Must /\ arg' = arg
                      \/ \E v \in AddPool[n] : arg' = (n :> v) @@ arg
                   /\ done' = (Len(txt) + 1 = Len(Order))
           ELSE \/ Len(txt) < Size /\ \E c \in Alphabet : txt' = Append(txt, c) /\ UNCHANGED <<done, arg>>
                \/ \E w \in Ways : arg' = w /\ done' = TRUE /\ UNCHANGED txt
Spec == Init /\ [][Next]_vars
At0(f) == done /\ Focus = f
Text == SJoin(txt, "")
Part(q, a, b) == SJoin(SubSeq(q, a, b), "")

\* ---- csv
Delim(w) == Param(w, "delim", ",")
DelimOf(w) == SCodes(Delim(w))[1]
Quote1(v) == "\"" \o SReplace(v, "\"", "\"\"") \o "\""
Rows(t, d) == CsvRows(t, d)
WriteRows(rows, d) == SJoin([n \in 1..Len(rows) |-> SJoin([m \in 1..Len(rows[n]) |-> Quote1(rows[n][m])], d) \o "\n"], "")
LawCsvBack == At0("csv") => LET x == Rows(Text, DelimOf(arg)) IN
   x.k = "ok" => Rows(WriteRows(x.rows, Delim(arg)), DelimOf(arg)) = x
\* what is read of two parts is what is read of the whole, when a line ends in between
LawCsvParts == At0("csv") => LET d == DelimOf(arg) IN
   \A k \in 1..Len(txt) - 1 : txt[k] = "\n" =>
      LET p == Rows(Part(txt, 1, k), d) q == Rows(Part(txt, k + 1, Len(txt)), d) w == Rows(Text, d)
      IN (p.k = "ok" /\ p.rows # << >>) => IF q.k = "ok" /\ (q.rows = << >> \/ Len(q.rows[1]) = Len(p.rows[1]))
                         THEN w.k = "ok" /\ w.rows = p.rows \o q.rows ELSE w.k = "bad"
Swap(t) == SReplace(SReplace(SReplace(t, ",", "~"), ";", ","), "~", ";")
LawCsvDelim == At0("csv") => LET d == DelimOf(arg) IN d = 44 =>
   LET x == Rows(Text, 44) y == Rows(Swap(Text), 59)
   IN x.k = y.k /\ (x.k = "ok" => y.rows = [n \in 1..Len(x.rows) |-> [m \in 1..Len(x.rows[n]) |-> Swap(x.rows[n][m])]])
\* with a header the same cells, under their names
LawCsvHeader == At0("csv") => LET d == Delim(arg) x == CsvValue(Text, d, TRUE) y == CsvValue(Text, d, FALSE) IN
   /\ x.k = "bad" <=> y.k = "bad"
   /\ x.k = "ok" => /\ Len(x.v.q) = Len(y.v.q) - 1
                    /\ \A n \in 1..Len(x.v.q) : \A m \in 1..Len(y.v.q[1].q) : x.v.q[n].f[y.v.q[1].q[m].v] = y.v.q[n + 1].q[m]

\* ---- json
WriteText(v) == "\"" \o SReplace(SReplace(v, "\\", "\\\\"), "\"", "\\\"") \o "\""
RECURSIVE WriteJson(_)
WriteJson(x) == CASE x.t = "s" -> WriteText(x.v) [] x.t = "b" -> x.v [] x.t = "none" -> "null"
                  [] x.t = "f" -> RFixed(x.v, RDecNeed(x.v))
                  [] x.t = "l" -> "[" \o SJoin([n \in 1..Len(x.q) |-> WriteJson(x.q[n])], ",") \o "]"
                  [] x.t = "d" -> LET ks == SetToSeq(DOMAIN x.f) IN "{" \o SJoin([n \in 1..Len(ks) |-> WriteText(ks[n]) \o ":" \o WriteJson(x.f[ks[n]])], ",") \o "}"
LawJsonBack == At0("json") => LET x == JsonValue(Text) IN x.k = "ok" => JsonValue(WriteJson(x.v)) = x
LawJsonBlanks == At0("json") => LET x == JsonValue(Text) IN
   x.k = "ok" => JsonValue("\n " \o Text \o "\t\r\n") = x /\ JsonValue("[" \o Text \o " , " \o Text \o "]") = [k |-> "ok", v |-> [t |-> "l", q |-> <<x.v, x.v>>]]
LawJsonWhole == At0("json") => LET x == JsonValue(Text) IN
   x.k = "ok" => \A c \in Alphabet \ {" "} : JsonValue(Text \o c).k = "bad" \/ (x.v.t = "f" /\ c = "-1.50")

\* ---- add
Df == [account |-> "M", ccy |-> "x", caccount |-> "E"]
W == [df |-> Df, rx |-> NoArg, today |-> Today]
Env0 == [data |-> Nothing, rec |-> Nothing, file |-> "f", post |-> << >>]
Added == Runs(EmptyBook, <<[s |-> "add", a |-> arg]>>, Env0, W)
Given(n, d) == IF n \in DOMAIN arg THEN arg[n].v ELSE d
Sum(ps, c) == FoldLeft(LAMBDA z, p : IF p.c = c THEN RAdd(z, p.v) ELSE z, RZero, ps)
LawAdd == At0("add") => LET st == Added IN
   IF st.k # "ok" THEN st.txns = << >>
   ELSE /\ Len(st.txns) = 1
        /\ LET x == st.txns[1] IN
           /\ x.d = 20200131 /\ x.p = "p" /\ x.n = Given("note", "")
           /\ \A c \in {x.ps[n].c : n \in 1..Len(x.ps)} : Sum(x.ps, c) = RZero
           /\ x.ps[1].a = Given("account", "M") /\ x.ps[1].c = Given("ccy", "x") /\ x.ps[1].n = Given("lnote", "")
           /\ \A n \in 1..Len(x.ps) : n % 2 = 0 => x.ps[n].a = Given("caccount", "E") /\ x.ps[n].n = "" /\ x.ps[n].c = x.ps[n - 1].c
           /\ Len(x.ps) \in {2, 4} /\ (Len(x.ps) = 4 => x.ps[3].a = "T" /\ x.ps[3].c = Given("ccy2", "x"))
           /\ (Len(x.ps) = 2 <=> ("amt2" \notin DOMAIN arg \/ arg["amt2"].e = "none"))
\* what can be added can be added again, to the same effect, and amounts that are refused are so whatever else is given
LawAddTwice == At0("add") => LET one == Added two == Runs(EmptyBook, <<[s |-> "add", a |-> arg], [s |-> "add", a |-> arg]>>, Env0, W) IN
   one.k = two.k /\ (one.k = "ok" => two.txns = <<one.txns[1], one.txns[1]>>)
LawAddLess == (At0("add") /\ Added.k = "ok") =>
   \A n \in DOMAIN arg \cap {"ccy", "account", "caccount", "note", "lnote", "denom"} :
      Runs(EmptyBook, <<[s |-> "add", a |-> [m \in DOMAIN arg \ {n} |-> arg[m]]]>>, Env0, W).k = "ok"

\* ---- files
Cuts == {k \in 1..Len(txt) : txt[k] = "|"}
Parts == LET ks == <<0>> \o SetToSortSeq(Cuts, <) \o <<Len(txt) + 1>> IN [n \in 1..Len(ks) - 1 |-> SubSeq(txt, ks[n] + 1, ks[n + 1] - 1)]
FileText(q) == SJoin([n \in 1..Len(q) |-> SSplit(q[n], " ")[1] \o "," \o SSplit(q[n], " ")[2] \o "\n"], "")
Rec(n) == [e |-> "rec", path |-> <<[t |-> "i", n |-> n]>>]
Loop == <<[s |-> "each", x |-> [e |-> "data", path |-> << >>],
           b |-> <<[s |-> "add", a |-> ("date" :> S("2020-01-31")) @@ ("desc" :> Rec(0)) @@ ("amt" :> Rec(1))]>>]>>
MainText(m) == SJoin([n \in 1..Len(m) |-> "2020/01/31 " \o m[n] \o "\n M  1 x\n E\n"], "")
MainBook(m) == LoadedBook(LoadTexts(<<[n |-> "m", t |-> MainText(m)]>>, "m"))
Job(q, dd) == [files |-> [n \in 1..Len(q) |-> [n |-> "f" \o SOfInt(n), t |-> FileText(q[n])]], fmt |-> [type |-> "csv", params |-> NoArg],
               script |-> Loop, df |-> Df, dedup |-> dd, reclass |-> FALSE, rx |-> NoArg, today |-> Today]
LawFiles == At0("files") =>
  LET main == MainBook(arg.main)
      x == Imported(main, Job(Parts, arg.dedup))
      alone(n) == Imported(EmptyBook, Job(<<Parts[n]>>, FALSE)).bk
      all == UNION {TransOf(alone(n)) : n \in 1..Len(Parts)}
      firstOf(t) == CHOOSE n \in 1..Len(Parts) : t \in TransOf(alone(n)) /\ \A m \in 1..n - 1 : t \notin TransOf(alone(m))
  IN /\ x.k = "ok" /\ Balanced(x.bk)
     /\ TransOf(x.bk) = IF arg.dedup THEN all \ TransOf(main) ELSE all       \* nothing lost, nothing twice
     /\ \A k \in DOMAIN x.bk.post : x.bk.post[k] = alone(firstOf(<<KDate(k), KPayee(k)>>)).post[k]
     \* the same files again, next to what came of them, bring nothing
     /\ LET again == Imported([main EXCEPT !.post = @ @@ x.bk.post], Job(Parts, TRUE)) IN again.k = "ok" /\ again.bk.post = << >>
     \* and neither does a file given twice
     /\ LET twice == Imported(main, Job(Parts \o Parts, arg.dedup)) IN twice.bk.post = x.bk.post

\* ---- into the real program
Load(t, names) == [op |-> "load", files |-> <<[n |-> "main.ledger", t |-> t]>>, main |-> "main.ledger", names |-> names]
Run(f, files, script, dd, style) == [op |-> "import", style |-> style, def |-> style >= 16, codefile |-> FALSE, dedup |-> dd, reclass |-> FALSE,
                                     files |-> files, fmt |-> f, script |-> script, df |-> Df, lang |-> ""]
Show == <<[s |-> "show", x |-> [e |-> "data", path |-> << >>]]>>
Program == CASE Focus = "files" -> <<Load(MainText(arg.main), <<"M", "E", "x">>), Run([type |-> "csv", params |-> NoArg], Job(Parts, TRUE).files, Loop, arg.dedup, Len(txt) * 7)>>
             [] Focus = "add" -> <<Load("", << >>), Run([type |-> "json", params |-> NoArg], <<[n |-> "-", t |-> "[]"]>>, <<[s |-> "add", a |-> arg]>>, TRUE, Cardinality(DOMAIN arg))>>
             [] OTHER -> <<Load("", << >>), Run(arg, <<[n |-> "-", t |-> Text]>>, Show, TRUE, Len(txt) * 5)>>
EmitRuns == Emit /\ done => PrintT("@@PROG " \o ToJson([ev |-> Program]))
===============================================================================
