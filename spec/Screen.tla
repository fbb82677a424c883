-------------------------------- MODULE Screen --------------------------------
(* What is shown on a screen: numbers, amounts and tables of text.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Prim

Esc == SOfCodes(<<27>>)
Codes == [c \in {"blue", "red", "blueul", "ul", "reset"} |->
            Esc \o CASE c = "blue" -> "[0;34m" [] c = "red" -> "[0;31m" [] c = "blueul" -> "[4;34m" [] c = "ul" -> "[4m" [] c = "reset" -> "[0m"]
Ink(on, c, txt) == IF on /\ c # "" THEN Codes[c] \o txt \o Codes["reset"] ELSE txt

Blank(n) == SOfCodes([x \in 1..n |-> 32])
Cols(txt) == Len(SCodes(txt))               \* one column for every character
Plain(txt) == SReplace(txt, SOfCodes(<<9>>), " ")

\* ---- numbers
Marks(lang) == CASE lang \in {"de", "nl", "de-DE", "nl-NL"} -> <<".", ",">>
                 [] lang \in {"fr", "fr-FR"} -> <<SOfCodes(<<160>>), ",">>
                 [] OTHER -> <<",", ".">>
Grouped(cs, mark) == LET RECURSIVE G(_)
                         G(q) == IF Len(q) <= 3 THEN SOfCodes(q) ELSE G(SubSeq(q, 1, Len(q) - 3)) \o mark \o SOfCodes(SubSeq(q, Len(q) - 2, Len(q)))
                     IN G(cs)
NumText(v, dec, lang) ==
  LET ps == SSplit(RFixed(RAbs(v), dec), ".")
      mk == Marks(lang)
  IN (IF RSign(v) < 0 THEN "-" ELSE "") \o Grouped(SCodes(ps[1]), mk[1]) \o (IF Len(ps) = 2 THEN mk[2] \o ps[2] ELSE "")
\* a currency before a number
Symbol(c) == IF SLetterEnd(c) \/ (c # "" /\ SCodes(c)[Len(SCodes(c))] = 34) THEN c \o " " ELSE c

\* ---- cells: [k, s, ink] with k "l" or "r" (justified), or [k |-> "m", s, n, ink] (symbol, number)
L(txt) == [k |-> "l", s |-> Plain(txt), ink |-> ""]
LInk(txt, c) == [k |-> "l", s |-> Plain(txt), ink |-> c]
RInk(txt, c) == [k |-> "r", s |-> Plain(txt), ink |-> c]
Money(c, v, dec, lang) == [k |-> "m", s |-> Plain(Symbol(c)), n |-> NumText(v, dec, lang), ink |-> IF RSign(v) < 0 THEN "red" ELSE "blue"]
CellCols(x) == Cols(x.s) + IF x.k = "m" THEN Cols(x.n) ELSE 0
Shorter(txt, n) == LET cs == SCodes(txt) IN SOfCodes(SubSeq(cs, 1, IF n < 0 THEN 0 ELSE IF n > Len(cs) THEN Len(cs) ELSE n))
CellText(x, w, on) ==
  LET gap == Blank(w - CellCols(x)) IN
  CASE x.k = "l" -> Ink(on, x.ink, Shorter(x.s, w)) \o gap
    [] x.k = "r" -> gap \o Ink(on, x.ink, Shorter(x.s, w))
    [] OTHER -> Ink(on, "blue", x.s) \o gap \o Ink(on, x.ink, x.n)

\* ---- terminals: [w, h, pager] (columns, lines, is there a pager), w = 0: none
NoTerm == [w |-> 0, h |-> 0, pager |-> FALSE]
Total(q) == FoldLeft(LAMBDA acc, x : acc + x, 0, q)
\* the widths of the columns: those that may be cut give up in equal proportion what the table is too wide
Narrowed(ws, may, width) ==
  LET full == Total(ws) + Len(ws) - 1
      soft == Total([c \in 1..Len(ws) |-> IF may[c] THEN ws[c] ELSE 0])
      RECURSIVE G(_, _, _)
      G(c, less, rest) == IF c > Len(ws) THEN << >>
                          ELSE IF ~may[c] THEN <<ws[c]>> \o G(c + 1, less, rest)
                          ELSE LET cut == (ws[c] * less) \div rest IN <<ws[c] - cut>> \o G(c + 1, less - cut, rest - ws[c])
  IN IF width = 0 \/ full <= width \/ soft = 0 THEN ws ELSE G(1, full - width, soft)

\* a table: rows of as many cells each, or << >> for an empty line; may: which columns may be cut
Widest(rows) ==
  LET cells == {n \in 1..Len(rows) : rows[n] # << >>}
      full == rows[CHOOSE n \in cells : TRUE]
  IN [c \in 1..Len(full) |-> Max({CellCols(rows[n][c]) : n \in cells})]
TableOn(rows, on, may, term) ==
  LET w == Narrowed(Widest(rows), may, term.w)
      line(r) == SJoin([c \in 1..Len(r) |-> CellText(r[c], w[c], on)], " ") \o "\n"
  IN IF \A n \in 1..Len(rows) : rows[n] = << >> THEN "" ELSE SJoin([n \in 1..Len(rows) |-> IF rows[n] = << >> THEN "\n" ELSE line(rows[n])], "")
TableText(rows, on) == TableOn(rows, on, << >>, NoTerm)

\* parts of an output: a text, then a table (rows: << >> when there is none); from the first table on that has more lines than the
\* terminal all goes through the pager
PartsText(ps, on, term) == SJoin([n \in 1..Len(ps) |-> ps[n].text \o TableOn(ps[n].rows, on, ps[n].may, term)], "")
Shown(ps, on, term) ==
  LET long == {n \in 1..Len(ps) : Len(ps[n].rows) > term.h}
      first == Min(long)
  IN IF term.w = 0 \/ ~term.pager \/ long = {} THEN [direct |-> PartsText(ps, on, term), paged |-> FALSE, rest |-> ""]
     ELSE [direct |-> PartsText(SubSeq(ps, 1, first - 1), on, term) \o ps[first].text, paged |-> TRUE,
           rest |-> PartsText(<<[ps[first] EXCEPT !.text = ""]>> \o SubSeq(ps, first + 1, Len(ps)), on, term)]
===============================================================================
