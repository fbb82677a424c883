------------------------------ MODULE Notation -------------------------------
(* The ledger notation: what one line of a ledger file says.                  *)
(*                                                                            *)
(* ReadLine(cs) gives, for a line as a sequence of code points,               *)
(*   [t |-> "skip"]                           blank, comment, D and = lines    *)
(*   [t |-> "txn", d, p, n]                   a transaction starts             *)
(*   [t |-> "post", a, amt, c, v, n]          a posting (amt FALSE: no amount) *)
(*   [t |-> "price", d, u, c, v]              a price                          *)
(*   [t |-> "include", f]   [t |-> "alias", s, l]                              *)
(*   [t |-> "bad"]                            not well formed                  *)
(*   [t |-> "unclear"]                        the notation does not say        *)
EXTENDS Integers, Sequences, Prim, Calendar

IsBlank(c) == c \in {32, 9}
\* white space other than blanks and tabs: accepted or not, not specified
IsOddWS(c) == c \in {11, 12, 13, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (c >= 8192 /\ c <= 8202)
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAcctRune(c) == IsUpper(c) \/ IsLower(c) \/ IsDig(c) \/ c \in {58, 38, 39, 95}      \* : & ' _
IsCcyRune(c) == ~IsBlank(c) /\ ~IsDig(c) /\ c \notin {59, 64, 45, 46}                \* ; @ - .
IsIdent(c) == IsUpper(c) \/ IsLower(c) \/ IsDig(c) \/ c = 95
InClass(c, k) == CASE k = "blank" -> IsBlank(c) [] k = "digit" -> IsDig(c) [] k = "number" -> IsDig(c) \/ c = 44
                   [] k = "acct" -> IsAcctRune(c) [] k = "ccy" -> IsCcyRune(c) [] k = "ident" -> IsIdent(c)
                   [] k = "notquote" -> c # 34 [] k = "notsemi" -> c # 59
\* the first position from i on that is not in the class
SpanDef(cs, i, k) == LET RECURSIVE S(_)
                         S(j) == IF j <= Len(cs) /\ InClass(cs[j], k) THEN S(j + 1) ELSE j
                     IN S(i)
Span(cs, i, k) == SpanDef(cs, i, k)
At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE -1        \* -1: end of line
Cut(cs, i, j) == SubSeq(cs, i, j - 1)
Blanks(cs, i) == Span(cs, i, "blank")
\* without blanks at either end
TrimL(cs) == SubSeq(cs, Blanks(cs, 1), Len(cs))
TrimR(cs) == LET RECURSIVE R(_)
                 R(n) == IF n > 0 /\ IsBlank(cs[n]) THEN R(n - 1) ELSE SubSeq(cs, 1, n)
             IN R(Len(cs))
Trim(cs) == TrimR(TrimL(cs))

Bad == [t |-> "bad"]
Unsaid == [t |-> "unclear"]
Skip == [t |-> "skip"]

\* a number of 1..max digits: [ok, i, v]
Number(cs, i, max) == LET e == Span(cs, i, "digit")
                      IN [ok |-> e > i /\ e - i <= max, i |-> e, v |-> IF e - i <= 9 THEN Num(Cut(cs, i, e)) ELSE 0]
Three(cs, i, sep, first) ==
  LET a == Number(cs, i, first)
      b == IF a.ok /\ At(cs, a.i) = sep THEN Number(cs, a.i + 1, 2) ELSE [ok |-> FALSE, i |-> a.i, v |-> 0]
      c == IF b.ok /\ At(cs, b.i) = sep THEN Number(cs, b.i + 1, 2) ELSE [ok |-> FALSE, i |-> b.i, v |-> 0]
  IN [ok |-> c.ok, i |-> c.i, v |-> <<a.v, b.v, c.v>>]
DateAt(cs, i) == LET x == Three(cs, i, 47, 4)
                 IN IF x.ok /\ ValidYMD(x.v[1], x.v[2], x.v[3])
                    THEN [ok |-> TRUE, i |-> x.i, d |-> Date(x.v[1], x.v[2], x.v[3])]
                    ELSE [ok |-> FALSE, i |-> x.i, d |-> 0]
\* a quoted text at i (which is the quote): [ok, i, s]
Quoted(cs, i) == LET e == Span(cs, i + 1, "notquote")
                 IN [ok |-> At(cs, e) = 34, i |-> e + 1, s |-> Cut(cs, i + 1, e)]

(* an amount: k = "none", "bad", "unclear" or "ok" with value v *)
Amount(cs, i0) ==
  LET i == Blanks(cs, i0)
      neg == At(cs, i) = 45
      a == IF neg THEN i + 1 ELSE i
      b == Span(cs, a, "number")
      e == IF At(cs, b) = 46 THEN Span(cs, b + 1, "number") ELSE b
      body == Cut(cs, a, e)
      digits == \E n \in 1..Len(body) : IsDig(body[n])
      whole == Cut(cs, a, b)
      frac == IF e > b THEN Cut(cs, b + 1, e) ELSE << >>
      \* separators inside the whole part only
      odd == \/ Len(whole) > 0 /\ (whole[1] = 44 \/ whole[Len(whole)] = 44)
             \/ \E n \in 1..Len(frac) : frac[n] = 44
      plain == SelectSeq(body, LAMBDA c : c # 44)
  IN IF ~digits THEN IF neg \/ Len(body) > 0 THEN [k |-> "bad", i |-> e, v |-> RZero] ELSE [k |-> "none", i |-> i, v |-> RZero]
     ELSE [k |-> IF odd THEN "unclear" ELSE "ok", i |-> e, neg |-> neg,
           v |-> LET x == RDec(SOfCodes(plain)) IN IF neg THEN RNeg(x) ELSE x]

\* an unquoted or quoted currency at i: [ok, i, s, q, odd]
CcyAt(cs, i) ==
  IF At(cs, i) = 34 THEN LET q == Quoted(cs, i) IN [ok |-> q.ok, i |-> q.i, s |-> q.s, q |-> TRUE, odd |-> FALSE]
  ELSE LET e == Span(cs, i, "ccy") IN
       [ok |-> TRUE, i |-> e, s |-> Cut(cs, i, e), q |-> FALSE,
        odd |-> \E n \in i..(e - 1) : cs[n] \in {44, 34, 61}]       \* , " = in a currency

(* a currency and an amount, in either order: k as for Amount *)
CcyAmount(cs, i) ==
  LET none(j) == [k |-> "none", i |-> j, c |-> << >>, v |-> RZero, neg |-> FALSE]
      bad == [k |-> "bad", i |-> i, c |-> << >>, v |-> RZero, neg |-> FALSE]
      res(c, a, j) == IF ~c.ok \/ a.k = "bad" THEN bad
                      ELSE IF a.k = "none" THEN IF c.s # << >> \/ c.q THEN bad ELSE none(j)
                      ELSE IF c.s = << >> THEN bad
                      ELSE [k |-> IF c.odd \/ a.k = "unclear" THEN "unclear" ELSE "ok", i |-> j, c |-> c.s, v |-> a.v, neg |-> a.neg]
  IN IF At(cs, i) # -1 /\ (At(cs, i) = 34 \/ IsCcyRune(At(cs, i)))
     THEN LET c == CcyAt(cs, i) IN IF ~c.ok THEN bad ELSE LET a == Amount(cs, c.i) IN
          IF c.odd /\ a.k # "ok" THEN [bad EXCEPT !.k = "unclear"] ELSE res(c, a, a.i)
     ELSE LET a == Amount(cs, i) c == CcyAt(cs, Blanks(cs, a.i)) IN res(c, a, IF a.k = "none" THEN a.i ELSE c.i)

\* the rest of a line after everything meaningful: blanks, then a note or nothing
\* k = "ok", "bad" or "unclear" (an = sign)
Rest(cs, i0) == LET i == Blanks(cs, i0) IN
  CASE At(cs, i) = -1 -> [k |-> "ok", n |-> << >>]
    [] At(cs, i) = 59 -> [k |-> "ok", n |-> SubSeq(cs, Blanks(cs, i + 1), Len(cs))]
    [] At(cs, i) = 61 -> [k |-> "unclear", n |-> << >>]
    [] OTHER -> [k |-> "bad", n |-> << >>]

\* an account at i, perhaps marked virtual: [i, s, odd]
AcctAt(cs, i0) ==
  LET i == Blanks(cs, i0)
      mark == At(cs, i) \in {33, 91}
      a == IF mark THEN i + 1 ELSE i
      e == Span(cs, a, "acct")
      close == At(cs, e) = 93
  IN [i |-> IF close THEN e + 1 ELSE e, s |-> Cut(cs, a, e), odd |-> close # (At(cs, i) = 91)]

TxnLine(cs) ==
  LET d == DateAt(cs, 1) IN
  IF ~d.ok THEN Bad
  ELSE LET i1 == Blanks(cs, d.i)
           star == At(cs, i1) = 42
           i2 == IF star THEN Blanks(cs, i1 + 1) ELSE i1
           gap == i1 > d.i \/ At(cs, d.i) \in {-1, 59}
       IN IF At(cs, i2) = 34
          THEN LET q == Quoted(cs, i2) r == Rest(cs, q.i) IN
               IF ~q.ok \/ r.k = "bad" THEN Bad
               ELSE IF r.k # "ok" \/ ~gap THEN Unsaid
               ELSE [t |-> "txn", d |-> d.d, p |-> SOfCodes(Trim(q.s)), n |-> SOfCodes(r.n)]
          ELSE IF ~gap THEN Unsaid
          ELSE LET e == Span(cs, i2, "notsemi") r == Rest(cs, e)
               IN [t |-> "txn", d |-> d.d, p |-> SOfCodes(Trim(Cut(cs, i2, e))), n |-> SOfCodes(r.n)]

PostLine(cs, i0) ==
  LET a == AcctAt(cs, i0) IN
  IF a.s = << >> THEN Bad
  ELSE LET i == Blanks(cs, a.i)
           neg == At(cs, i) = 45
           j == IF neg THEN i + 1 ELSE i
           m == CcyAmount(cs, j)
           k == Blanks(cs, m.i)
           priced == At(cs, k) = 64
           pr == CcyAmount(cs, Blanks(cs, k + 1))
           r == Rest(cs, IF priced THEN pr.i ELSE k)
           gap == i > a.i \/ At(cs, i) \in {-1, 59}
           unclear == a.odd \/ ~gap \/ m.k = "unclear" \/ (neg /\ (m.neg \/ IsBlank(At(cs, j)))) \/ (priced /\ pr.k = "unclear")
       IN \* what the notation does not say is only decided once the rest is looked at
          IF unclear THEN Unsaid
          ELSE IF m.k = "bad" \/ (neg /\ m.k = "none") \/ (priced /\ pr.k # "ok") \/ r.k = "bad" THEN Bad
          ELSE IF r.k = "unclear" \/ (priced /\ m.k = "none") THEN Unsaid
          ELSE [t |-> "post", a |-> SOfCodes(a.s), amt |-> m.k = "ok", c |-> SOfCodes(m.c),
                v |-> IF neg THEN RNeg(m.v) ELSE m.v, n |-> SOfCodes(r.n)]

PriceLine(cs) ==
  LET i1 == Blanks(cs, 2)
      d == DateAt(cs, i1) IN
  IF ~d.ok THEN Bad
  ELSE LET i2 == Blanks(cs, d.i)
           tm == Three(cs, i2, 58, 2) IN
       IF ~tm.ok THEN Bad
       ELSE LET i3 == Blanks(cs, tm.i)
                u == CcyAt(cs, i3) IN
            IF ~u.ok \/ u.s = << >> THEN Bad
            ELSE LET m == CcyAmount(cs, Blanks(cs, u.i)) r == Rest(cs, m.i)
                     unclear == i1 = 2 \/ i2 = d.i \/ i3 = tm.i \/ u.odd \/ tm.v[1] > 23 \/ tm.v[2] > 59 \/ tm.v[3] > 59
                                \/ m.k = "unclear" \/ Blanks(cs, u.i) = u.i
                 IN IF unclear THEN Unsaid
                    ELSE IF m.k # "ok" \/ r.k = "bad" THEN Bad
                    ELSE IF r.k = "unclear" THEN Unsaid
                    ELSE [t |-> "price", d |-> d.d, u |-> SOfCodes(u.s), c |-> SOfCodes(m.c), v |-> m.v]

CommandLine(cs) ==
  LET e == Span(cs, 1, "ident")
      w == SUpper(SOfCodes(Cut(cs, 1, e)))
      i == Blanks(cs, e) IN
  IF \E n \in 1..e : At(cs, n) > 127 THEN Unsaid
  ELSE IF w = "INCLUDE"
  THEN LET f == Trim(SubSeq(cs, i, Len(cs)))
           q == Len(f) > 1 /\ f[1] = 34 /\ f[Len(f)] = 34
           g == IF q THEN SubSeq(f, 2, Len(f) - 1) ELSE f
       IN IF g = << >> THEN Bad ELSE IF i = e THEN Unsaid ELSE [t |-> "include", f |-> SOfCodes(g)]
  ELSE IF w = "ALIAS"
  THEN LET s == AcctAt(cs, i)
           j == Blanks(cs, s.i)
           l == AcctAt(cs, j + 1)
           r == Rest(cs, l.i) IN
       IF s.s = << >> \/ At(cs, j) # 61 \/ l.s = << >> \/ r.k = "bad" THEN Bad
       ELSE IF i = e \/ s.odd \/ l.odd \/ r.k = "unclear" THEN Unsaid
       ELSE [t |-> "alias", s |-> SOfCodes(s.s), l |-> SOfCodes(l.s)]
  ELSE Bad

ReadLine(raw) ==
  LET \* a carriage return before the end of a line without a note belongs to the line end
      crlf == Len(raw) > 0 /\ raw[Len(raw)] = 13 /\ Span(raw, 1, "notsemi") > Len(raw)
      cs == IF crlf THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
      i == Blanks(cs, 1)
  IN IF \E n \in 1..Len(cs) : IsOddWS(cs[n]) THEN Unsaid
     ELSE IF At(cs, i) \in {-1, 59} THEN Skip
     ELSE IF i > 1 THEN PostLine(cs, i)
     ELSE CASE cs[1] \in {61, 68} -> Skip                 \* = and D
            [] cs[1] = 80 -> PriceLine(cs)                \* P
            [] IsDig(cs[1]) -> TxnLine(cs)
            [] OTHER -> CommandLine(cs)
=============================================================================
