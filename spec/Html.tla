--------------------------------- MODULE Html ---------------------------------
(* A report as a web page: a tree of boxes, each of a class, with texts in      *)
(* them.  A page is written as the sequence of what opens a box ("+class"),     *)
(* closes it ("-") and stands in it ("=text"); an empty text is not there.      *)
EXTENDS Cli

Opn(c) == "+" \o c
Box(c, t) == <<Opn(c)>> \o (IF t = "" THEN << >> ELSE <<"=" \o t>>) \o <<"-">>
Times(n, x) == [k \in 1..n |-> x]
\* what a row shows
AmountText(bk, y, s) == Symbol(y.c) \o NumText(y.v, DecOfCcy(bk, y.c), s["lang"])
Turn(l, last) == IF l > last THEN "moreindent" ELSE IF l < last THEN "lessindent" ELSE "sameindent"
RowBoxes(bk, y, last, s) ==
  (IF y.l > last THEN Times(y.l - last, Opn("indentbox")) ELSE Times(last - y.l, "-"))
  \o <<Opn("post indent" \o SOfInt(y.l) \o " " \o Turn(y.l, last))>>
  \o Box("account", y.term)
  \o Box("amount " \o (IF RSign(y.v) < 0 THEN "neg" ELSE "pos"), AmountText(bk, y, s))
  \o <<"-">>
ReportBoxes(bk, x, s) ==
  LET n == Len(x.ps)
      last(j) == IF j = 1 THEN 0 ELSE x.ps[j - 1].l
  IN <<Opn("report"), Opn("header")>> \o Box("date", DateText(x.d)) \o (IF x.p = "" THEN << >> ELSE Box("payee", x.p)) \o <<"-", Opn("posts")>>
     \o FlattenSeq([j \in 1..n |-> RowBoxes(bk, x.ps[j], last(j), s)])
     \o Times(IF n = 0 THEN 0 ELSE x.ps[n].l, "-") \o <<"-", "-">>
PageBoxes(bk, rows, s) == <<Opn("reports")>> \o FlattenSeq([x \in 1..Len(rows) |-> ReportBoxes(bk, rows[x], s)]) \o <<"-">>

\* the style: the program's own when none is given; files: the texts of files ("bad": there is no such file)
StyleOf(s, files) == LET t == s["report.htmlcss"] IN
  IF t = "" THEN [k |-> "own"]
  ELSE IF ~SStarts(t, "file:") THEN [k |-> "text", t |-> t]
  ELSE LET f == SDropPrefix(t, "file:") IN IF f \in DOMAIN files THEN [k |-> "text", t |-> files[f]] ELSE Bads

(***************************************************************************)
(* Reading a page                                                          *)
(***************************************************************************)
\* the classes open after each item, outermost first; << >> when one closes that is not open
Stacks(q) == FoldLeft(LAMBDA acc, x : LET t == acc[Len(acc)] IN
                        Append(acc, IF SStarts(x, "+") THEN Append(t, SDropPrefix(x, "+")) ELSE IF x = "-" THEN (IF t = << >> THEN <<"?">> ELSE SubSeq(t, 1, Len(t) - 1)) ELSE t),
                      << << >> >>, q)
WellNested(q) == LET st == Stacks(q) IN (\A n \in 1..Len(st) : st[n] # <<"?">>) /\ st[Len(st)] = << >>
\* the rows as a reader sees them: the report they are in, how many boxes they are in, and their texts
ReadRows(q) ==
  LET st == Stacks(q)
      starts == {n \in 1..Len(q) : SStarts(q[n], "+post ")}
      txt(n, c) == LET ns == {m \in n..Len(q) : SStarts(q[m], "+" \o c)} IN
                   IF ns = {} THEN "" ELSE LET m == Min(ns) IN IF SStarts(q[m + 1], "=") THEN SDropPrefix(q[m + 1], "=") ELSE ""
      row(n) == [rep |-> Cardinality({m \in 1..n : q[m] = "+report"}), deep |-> Cardinality({m \in 1..Len(st[n]) : st[n][m] = "indentbox"}),
                 top |-> SubSeq(st[n], 1, 3), a |-> txt(n, "account"), v |-> txt(n, "amount")]
      ns == SetToSortSeq(starts, LAMBDA a, b : a < b)
  IN [k \in 1..Len(ns) |-> row(ns[k])]
===============================================================================
