------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar, with dates written as the integers       *)
(* yyyymmdd the program uses, and the texts that denote dates.                *)
EXTENDS Integers, Sequences, Prim

Year(d)  == d \div 10000
Month(d) == (d \div 100) % 100
Day(d)   == d % 100
Date(y, m, d) == y * 10000 + m * 100 + d

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28
ValidYMD(y, m, d) == y >= 1 /\ y <= 9999 /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)
ValidDate(d) == ValidYMD(Year(d), Month(d), Day(d))

\* ordinal of a date: 0001/01/01 is day 0
CumDays(y, m) == (CASE m = 1 -> 0 [] m = 2 -> 31 [] m = 3 -> 59 [] m = 4 -> 90 [] m = 5 -> 120
                    [] m = 6 -> 151 [] m = 7 -> 181 [] m = 8 -> 212 [] m = 9 -> 243 [] m = 10 -> 273
                    [] m = 11 -> 304 [] OTHER -> 334) + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DaysBeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
DayNo(d) == DaysBeforeYear(Year(d)) + CumDays(Year(d), Month(d)) + Day(d) - 1

\* the date with a given ordinal (n >= 0)
FromDayNo(n) ==
  LET y0 == n \div 366 + 1                       \* never too late
      y  == LET RECURSIVE Up(_)
                Up(k) == IF DaysBeforeYear(k + 1) <= n THEN Up(k + 1) ELSE k
            IN Up(IF y0 > 4 THEN y0 ELSE 1)
      r  == n - DaysBeforeYear(y)
      m  == CHOOSE k \in 1..12 : CumDays(y, k) <= r /\ (k = 12 \/ CumDays(y, k + 1) > r)
  IN Date(y, m, r - CumDays(y, m) + 1)

NextDay(d) == IF Day(d) < DaysIn(Year(d), Month(d)) THEN d + 1
              ELSE IF Month(d) < 12 THEN Date(Year(d), Month(d) + 1, 1)
              ELSE Date(Year(d) + 1, 1, 1)
AddDays(d, k) == FromDayNo(DayNo(d) + k)

\* first day of the period k periods after the one containing d
MonthIdx(d) == Year(d) * 12 + Month(d) - 1
OfMonthIdx(i) == Date(i \div 12, (i % 12) + 1, 1)
FloorMonth(d, k) == OfMonthIdx(MonthIdx(d) + k)
FloorQuarter(d, k) == OfMonthIdx((MonthIdx(d) \div 3 + k) * 3)
FloorYear(d, k) == Date(Year(d) + k, 1, 1)
FloorBy(d, by, k, today) ==
  CASE by = "yearly" -> FloorYear(d, k)
    [] by = "quarterly" -> FloorQuarter(d, k)
    [] by = "monthly" -> FloorMonth(d, k)
    [] by = "today" -> today
    [] OTHER -> d

(***************************************************************************)
(* Date texts.  ParseDate gives the date a text denotes, or 0 when it      *)
(* denotes none: year first, with optional month and day, separated by     *)
(* "-", "/", "." or nothing; or day, month, year with separators; or       *)
(* this/last/next month/quarter/year.                                      *)
(***************************************************************************)
IsDig(c) == c >= 48 /\ c <= 57
IsSep(c) == c \in {45, 47, 46}
Num(cs) == LET RECURSIVE N(_, _)
               N(i, a) == IF i > Len(cs) THEN a ELSE N(i + 1, a * 10 + cs[i] - 48)
           IN N(1, 0)
AllDig(cs) == \A i \in 1..Len(cs) : IsDig(cs[i])
\* split a code sequence at separators
Fields(cs) == LET RECURSIVE F(_, _, _)
                  F(i, cur, acc) == IF i > Len(cs) THEN Append(acc, cur)
                                    ELSE IF IsSep(cs[i]) THEN F(i + 1, << >>, Append(acc, cur))
                                    ELSE F(i + 1, Append(cur, cs[i]), acc)
              IN F(1, << >>, << >>)
OrZero(y, m, d) == IF ValidYMD(y, m, d) THEN Date(y, m, d) ELSE 0
IsMD(f) == Len(f) \in {1, 2}

Phrases == [w \in {"this", "last", "next"} |-> CASE w = "this" -> 0 [] w = "last" -> -1 [] OTHER -> 1]
PhraseDate(txt, today) ==
  LET cs == SCodes(txt)
      IsGap(c) == c \in {32, 9, 46, 95}                      \* blank, tab, "." or "_"
      gap == {n \in 1..Len(cs) : IsGap(cs[n])}
      lo == CHOOSE n \in gap : \A m \in gap : n <= m
      hi == CHOOSE n \in gap : \A m \in gap : m <= n
      w1 == SOfCodes(SubSeq(cs, 1, lo - 1))
      w2 == SOfCodes(SubSeq(cs, hi + 1, Len(cs)))
  IN IF gap # {} /\ (lo..hi) \subseteq gap /\ w1 \in DOMAIN Phrases /\ w2 \in {"month", "quarter", "year"}
     THEN FloorBy(today, w2 \o "ly", Phrases[w1], today) ELSE 0

ParseDate(txt, today) ==
  LET cs == SCodes(txt)
      fs == Fields(cs)
  IN IF Len(cs) > 0 /\ (\A i \in 1..Len(cs) : IsDig(cs[i]) \/ IsSep(cs[i]))
     THEN IF Len(fs) = 1
          THEN CASE Len(cs) = 4 -> OrZero(Num(cs), 1, 1)
                 [] Len(cs) = 6 -> OrZero(Num(SubSeq(cs, 1, 4)), Num(SubSeq(cs, 5, 6)), 1)
                 [] Len(cs) = 8 -> OrZero(Num(SubSeq(cs, 1, 4)), Num(SubSeq(cs, 5, 6)), Num(SubSeq(cs, 7, 8)))
                 [] OTHER -> 0
          ELSE IF Len(fs) = 2 /\ Len(fs[1]) = 4 /\ IsMD(fs[2]) THEN OrZero(Num(fs[1]), Num(fs[2]), 1)
          ELSE IF Len(fs) = 3 /\ Len(fs[1]) = 4 /\ IsMD(fs[2]) /\ IsMD(fs[3])
               THEN OrZero(Num(fs[1]), Num(fs[2]), Num(fs[3]))
          ELSE IF Len(fs) = 3 /\ IsMD(fs[1]) /\ IsMD(fs[2]) /\ Len(fs[3]) = 4
               THEN OrZero(Num(fs[3]), Num(fs[2]), Num(fs[1]))
          ELSE 0
     ELSE PhraseDate(txt, today)

\* texts of digits and separators in none of these forms: whether they denote a
\* date is not specified (but they never denote something that is not one)
Unclear(txt) == LET cs == SCodes(txt) IN
   (\A i \in 1..Len(cs) : IsDig(cs[i]) \/ IsSep(cs[i]) \/ cs[i] = 43) /\ ParseDate(txt, 10101) = 0
   /\ LET fs == Fields(cs) IN
      ~(\/ Len(cs) = 4 /\ AllDig(cs)
        \/ Len(cs) = 0
        \/ Len(fs) = 2 /\ Len(fs[1]) = 4 /\ IsMD(fs[2])
        \/ Len(fs) = 3 /\ Len(fs[1]) = 4 /\ IsMD(fs[2]) /\ IsMD(fs[3])
        \/ Len(fs) = 3 /\ IsMD(fs[1]) /\ IsMD(fs[2]) /\ Len(fs[3]) = 4)

DateText(d) == LET pad(n, w) == LET t == SOfInt(n) IN
                     IF w = 4 THEN (CASE n < 10 -> "000" \o t [] n < 100 -> "00" \o t [] n < 1000 -> "0" \o t [] OTHER -> t)
                     ELSE (IF n < 10 THEN "0" \o t ELSE t)
               IN pad(Year(d), 4) \o "/" \o pad(Month(d), 2) \o "/" \o pad(Day(d), 2)
=============================================================================
