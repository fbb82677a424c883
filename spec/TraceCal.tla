------------------------------ MODULE TraceCal ------------------------------
(* Validation of the program's calendar against Calendar.tla.                 *)
EXTENDS Calendar, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VTRACE)
VARIABLES sc, i
vars == <<sc, i>>
Ev == Trace[sc].ev[i + 1]
Has(e, f) == f \in DOMAIN e

\* every day of year y, in order
DaysOf(y) == FlattenSeq([m \in 1..12 |-> [n \in 1..DaysIn(y, m) |-> Date(y, m, n)]])
InRange(d) == Year(d) >= 1 /\ Year(d) <= 9999
Pad2(n) == IF n < 10 THEN "0" \o SOfInt(n) ELSE SOfInt(n)
YearText(d) == SOfCodes(SubSeq(SCodes(DateText(d)), 1, 4))
\* one year of the program's calendar: everything it says about every day
YearFaults(e) ==
  LET o == e.o
      ds == DaysOf(e.y)
      N == Len(ds)
      d0 == DayNo(ds[1])
      eq(q, F(_)) == Len(q) = N /\ \A n \in 1..N : q[n] = F(n)
      inr(q, F(_)) == Len(q) = N /\ \A n \in 1..N : LET x == F(n) IN ~InRange(x) \/ q[n] = x
  IN (IF o.valid # ds THEN {"valid-dates"} ELSE {})
     \cup (IF ~eq(o.no, LAMBDA n : d0 + n - 1) THEN {"day-number"} ELSE {})
     \cup (IF ~eq(o.back, LAMBDA n : ds[n]) THEN {"date-of-day-number"} ELSE {})
     \cup (IF ~eq(o.since, LAMBDA n : d0 + n - 1 - DayNo(e.ref)) THEN {"difference-of-days"} ELSE {})
     \cup (IF Len(o.plus) # N \/ \E n \in 1..N : LET t == d0 + n - 1 + e.add IN
                t >= 0 /\ t <= 3652058 /\ (ValidDate(o.plus[n]) => DayNo(o.plus[n]) # t) THEN {"adding-days"} ELSE {})
     \cup (IF \E n \in 1..N : LET t == d0 + n - 1 + e.add IN t >= 0 /\ t <= 3652058 /\ ~ValidDate(o.plus[n]) THEN {"adding-days-invalid"} ELSE {})
     \cup (IF ~inr(o.fm, LAMBDA n : FloorMonth(ds[n], e.k)) THEN {"month"} ELSE {})
     \cup (IF ~inr(o.fq, LAMBDA n : FloorQuarter(ds[n], e.k)) THEN {"quarter"} ELSE {})
     \cup (IF ~inr(o.fy, LAMBDA n : FloorYear(ds[n], e.k)) THEN {"year"} ELSE {})
     \cup (IF ~eq(o.txt, LAMBDA n : DateText(ds[n])) THEN {"text"} ELSE {})
     \cup (IF ~eq(o.json, LAMBDA n : SReplace(DateText(ds[n]), "/", "-") \o "T00:00:00Z") THEN {"json"} ELSE {})
     \cup (IF ~eq(o.y, LAMBDA n : YearText(ds[n])) THEN {"year-label"} ELSE {})
     \cup (IF ~eq(o.ym, LAMBDA n : YearText(ds[n]) \o "/" \o Pad2(Month(ds[n]))) THEN {"month-label"} ELSE {})
     \cup (IF ~eq(o.yq, LAMBDA n : YearText(ds[n]) \o " Q" \o SOfInt((Month(ds[n]) - 1) \div 3 + 1)) THEN {"quarter-label"} ELSE {})
\* floors by name, including today and none
FloorFaults(e) ==
  IF \A n \in 1..Len(e.ds) : LET x == FloorBy(e.ds[n], e.by, e.k, e.today) IN ~InRange(x) \/ e.o.q[n] = x THEN {} ELSE {"floor"}
\* what texts denote
ParseFaults(e) ==
  UNION {LET x == ParseDate(e.ts[n], e.today) IN
         IF Unclear(e.ts[n]) THEN (IF e.o.q[n] = 0 \/ ValidDate(e.o.q[n]) THEN {} ELSE {"denotes no date: " \o e.ts[n]})
         ELSE IF e.o.q[n] = x THEN {} ELSE {"text " \o e.ts[n] \o " as " \o SOfInt(e.o.q[n])} : n \in 1..Len(e.ts)}
Faults(e) == IF Has(e.o, "panic") THEN {"crash: " \o e.o.panic}
             ELSE CASE e.op = "year" -> YearFaults(e) [] e.op = "floor" -> FloorFaults(e) [] e.op = "parse" -> ParseFaults(e)
Init == sc \in 1..Len(Trace) /\ i = 0
Next == /\ i < Len(Trace[sc].ev)
        /\ LET e == Ev
               fs == Faults(e)
           IN IF fs = {} THEN i' = i + 1
              ELSE /\ PrintT("@@MM " \o Trace[sc].id \o "|" \o SOfInt(i + 1) \o "|" \o e.op \o "|" \o SJoin(SetToSeq(fs), "&&"))
                   /\ i' = Len(Trace[sc].ev) + 1
        /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
