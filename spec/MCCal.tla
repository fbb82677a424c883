-------------------------------- MODULE MCCal --------------------------------
(* Exhaustive walk through the calendar of Calendar.tla, day by day, over     *)
(* ranges of years that contain every kind of leap and century boundary, with *)
(* the laws C09 states; the date texts of each day are printed (Emit) so that *)
(* the program can be asked what they denote.                                 *)
EXTENDS Calendar, TLC, Json, SequencesExt
CONSTANTS Starts, Span, Emit
VARIABLES d, first
vars == <<d, first>>
MCStartsQuick == {Date(1, 1, 1), Date(96, 1, 1), Date(399, 1, 1), Date(1899, 1, 1), Date(1999, 1, 1), Date(9996, 1, 1)}
MCStartsDeep == {Date(1 + 400 * k, 1, 1) : k \in {0, 2, 4, 24}} 
Init == d \in Starts /\ first = d
Next == /\ Year(NextDay(d)) <= 9999 /\ Year(NextDay(d)) < Year(first) + Span
        /\ d' = NextDay(d) /\ first' = first
Spec == Init /\ [][Next]_vars

\* ordinals count days, and every date is the date of its ordinal
LawInverse == FromDayNo(DayNo(d)) = d /\ ValidDate(d)
LawStep == [][DayNo(d') = DayNo(d) + 1]_vars
LawOrigin == DayNo(Date(1, 1, 1)) = 0 /\ DayNo(Date(1970, 1, 1)) = 719162 /\ DayNo(Date(2000, 3, 1)) = 730179
\* floors: first day of the period the date is in, and shifts move by whole periods
Pers == {"yearly", "quarterly", "monthly"}
LawFloor == \A by \in Pers :
   LET f == FloorBy(d, by, 0, 0) IN
   /\ f <= d /\ Day(f) = 1 /\ d < FloorBy(d, by, 1, 0)
   /\ by = "yearly" => Month(f) = 1
   /\ by = "quarterly" => Month(f) \in {1, 4, 7, 10}
   /\ FloorBy(f, by, 0, 0) = f
   /\ Year(d) < 9990 => \A k \in {0, 1, 3, 5} : FloorBy(FloorBy(d, by, k, 0), by, -k, 0) = f
   /\ Year(d) > 10 /\ Year(d) < 9990 => \A k \in {-13, -4, -1, 2, 12} :
        FloorBy(FloorBy(d, by, k, 0), by, 1, 0) = FloorBy(d, by, k + 1, 0)
   /\ by = "quarterly" => FloorBy(d, "monthly", 0, 0) >= f /\ FloorMonth(f, 3) = FloorBy(d, by, 1, 0)
   /\ by = "yearly" => FloorQuarter(f, 4) = FloorBy(d, by, 1, 0) /\ FloorMonth(f, 12) = FloorBy(d, by, 1, 0)
\* every notation of the day denotes it
Pad(n) == IF n < 10 THEN "0" \o SOfInt(n) ELSE SOfInt(n)
Texts == LET y == SOfCodes(SubSeq(SCodes(DateText(d)), 1, 4)) m == Month(d) dd == Day(d)
         IN {y \o s \o Pad(m) \o s \o Pad(dd) : s \in {"-", "/", ".", ""}}
            \cup {y \o s \o SOfInt(m) \o s \o SOfInt(dd) : s \in {"-", "/", "."}}
            \cup {Pad(dd) \o s \o Pad(m) \o s \o y : s \in {"-", "/", "."}}
            \cup {SOfInt(dd) \o "/" \o SOfInt(m) \o "/" \o y}
            \cup (IF dd = 1 THEN {y \o s \o Pad(m) : s \in {"-", "/", ".", ""}} ELSE {})
            \cup (IF dd = 1 /\ m = 1 THEN {y} ELSE {})
LawTexts == \A t \in Texts : ParseDate(t, 0) = d
\* the days after the last of the month, and month 13, are no dates
NoTexts == LET y == SOfCodes(SubSeq(SCodes(DateText(d)), 1, 4)) IN
   IF NextDay(d) = FloorMonth(d, 1) \/ d = Date(9999, 12, 31)
   THEN {y \o "/" \o SOfInt(Month(d)) \o "/" \o SOfInt(k) : k \in (Day(d) + 1)..32} \cup {y \o "-13", y \o "-00-10", y \o "/" \o SOfInt(Month(d)) \o "/0"}
   ELSE {}
LawNoTexts == \A t \in NoTexts : ParseDate(t, 0) = 0
\* this/last/next on this day
LawPhrase == /\ ParseDate("this month", d) = FloorMonth(d, 0)
             /\ (Year(d) > 1 /\ Year(d) < 9999) =>
                /\ NextDay(ParseDate("last month", d)) > FloorMonth(d, -1)
                /\ ParseDate("next quarter", d) = FloorQuarter(d, 1) /\ ParseDate("last_year", d) = FloorYear(d, -1)
EmitTexts == Emit /\ (Day(d) \in {1, 9, 10} \/ NextDay(d) = FloorMonth(d, 1) \/ (Month(d) = 2 /\ Day(d) > 27)) =>
   PrintT("@@PROG " \o ToJson([ev |-> <<[op |-> "parse", ts |-> SetToSeq(Texts \cup NoTexts)]>>]))
=============================================================================
