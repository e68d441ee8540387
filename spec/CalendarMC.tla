---------------------------- MODULE CalendarMC ----------------------------
(***************************************************************************)
(* The formulas of Calendar against the rules they stand for: the day      *)
(* after is the next day of the month, or the first of the next month...   *)
(***************************************************************************)
EXTENDS Calendar

CONSTANTS From, To

VARIABLES n, y, m, d, o, wy, w, wd

vars == <<n, y, m, d, o, wy, w, wd>>

(* one run for each year, starting two days before *)
Init ==
    /\ \E z \in From..To :
        /\ y = z /\ m = 12 /\ d = 30
        /\ o = YearLen(z) - 1
        /\ n = BeforeYear(z + 1) - 1
    /\ LET k == WeekOf(n) IN (wy = k[1]) /\ (w = k[2]) /\ (wd = k[3])

(* The week of a Monday is week 1 if its Thursday is the first of a year *)
NextDay ==
    /\ n' = n + 1
    /\ IF d < MonthLen(y, m)
       THEN (d' = d + 1) /\ UNCHANGED <<m, y>> /\ (o' = o + 1)
       ELSE /\ d' = 1
            /\ IF m < 12
               THEN (m' = m + 1) /\ (o' = o + 1) /\ UNCHANGED y
               ELSE (m' = 1) /\ (o' = 1) /\ (y' = y + 1)
    /\ IF wd < 7
       THEN (wd' = wd + 1) /\ UNCHANGED <<w, wy>>
       ELSE /\ wd' = 1
            (* Thursday is three days on: in January, one of the first 7? *)
            /\ IF \/ (m' = 1) /\ (d' + 3 <= 7)
                  \/ (m' = 12) /\ (d' + 3 > 31)
               THEN (w' = 1) /\ (wy' = wy + 1)
               ELSE (w' = w + 1) /\ UNCHANGED wy

Next == (n < BeforeYear(To + 2)) /\ NextDay
Spec == Init /\ [][Next]_vars

Cal == (CalOf(n) = <<y, m, d>>) /\ (DayOfCal(y, m, d) = n)
Ord == (OrdOf(n) = <<y, o>>) /\ (DayOfOrd(y, o) = n)
Week == (WeekOf(n) = <<wy, w, wd>>) /\ (DayOfWeek(wy, w, wd) = n) /\
        IsWeek(wy, w, wd)

(* Known days *)
ASSUME /\ WeekDay(DayOfCal(2000, 1, 1)) = 6
       /\ WeekDay(DayOfCal(1969, 7, 20)) = 7
       /\ DayOfCal(1969, 7, 20) = 718998
       /\ DayOfJulian(1, 1, 3) = 1
       /\ WeekOf(DayOfCal(2005, 1, 1)) = <<2004, 53, 6>>
       /\ WeekOf(DayOfCal(2008, 12, 29)) = <<2009, 1, 1>>
=============================================================================
