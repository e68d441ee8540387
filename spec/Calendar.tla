----------------------------- MODULE Calendar -----------------------------
(***************************************************************************)
(* The calendar of ISO 8601: days, and their names in each of the forms    *)
(* of a date; times of day, zones and time points.                         *)
(*                                                                         *)
(* A day is its number, day 1 being 0001-01-01.  A time of day is a number *)
(* of milliseconds; 24:00:00 is one.  An instant is <<day, ms>> with       *)
(* 0 <= ms < DayMs (numbers of seconds are too large for TLC).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

DayMs == 86400000

Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
YearLen(y) == IF Leap(y) THEN 366 ELSE 365

(* Days before 1st January of a year, before the 1st of a month *)
BeforeYear(y) == LET p == y - 1 IN
    365 * p + (p \div 4) - (p \div 100) + (p \div 400)
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0
                     ELSE BeforeMonth(y, m - 1) + MonthLen(y, m - 1)

IsCal(y, m, d) == (y \in 1..9999) /\ (m \in 1..12) /\ (d \in 1..MonthLen(y, m))
DayOfCal(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d
IsOrd(y, o) == (y \in 1..9999) /\ (o \in 1..YearLen(y))
DayOfOrd(y, o) == BeforeYear(y) + o

(* 1 is Monday; 0001-01-01 was one *)
WeekDay(n) == ((n - 1) % 7) + 1

(* The Monday of week 1: the week with the 4th of January in it *)
WeekOne(y) == LET j == DayOfCal(y, 1, 4) IN j - (WeekDay(j) - 1)
Weeks(y) == (WeekOne(y + 1) - WeekOne(y)) \div 7
IsWeek(y, w, d) == (w \in 1..Weeks(y)) /\ (d \in 1..7)
DayOfWeek(y, w, d) == WeekOne(y) + 7 * (w - 1) + d - 1

YearOf(n) == LET g == (n \div 366) + 1 IN
    (* the year is at most seven after this guess *)
    CHOOSE y \in g..(g + 30) :
        (BeforeYear(y) < n) /\ (n <= BeforeYear(y + 1))
OrdOf(n) == LET y == YearOf(n) IN <<y, n - BeforeYear(y)>>
CalOf(n) ==
    LET y == YearOf(n)
        o == n - BeforeYear(y)
        m == CHOOSE k \in 1..12 : (BeforeMonth(y, k) < o) /\
                                  (o <= BeforeMonth(y, k) + MonthLen(y, k))
    IN  <<y, m, o - BeforeMonth(y, m)>>
WeekOf(n) ==
    LET y == YearOf(n)
        wy == CASE n < WeekOne(y) -> y - 1
                [] n >= WeekOne(y + 1) -> y + 1
                [] OTHER -> y
    IN  <<wy, ((n - WeekOne(wy)) \div 7) + 1, WeekDay(n)>>

(* The calendar of Julius Caesar *)
JMonthLen(y, m) == CASE m = 2 -> IF y % 4 = 0 THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
RECURSIVE JBeforeMonth(_, _)
JBeforeMonth(y, m) == IF m = 1 THEN 0
                      ELSE JBeforeMonth(y, m - 1) + JMonthLen(y, m - 1)
(* 4th October 1582 was followed by 15th October 1582 in the new calendar *)
JRaw(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) + JBeforeMonth(y, m) + d
JShift == DayOfCal(1582, 10, 15) - JRaw(1582, 10, 5)
DayOfJulian(y, m, d) == JRaw(y, m, d) + JShift

LastDay == DayOfCal(9999, 12, 31)
IsDay(n) == n \in 1..LastDay

---------------------------------------------------------------------------
(* Text                                                                    *)

Zero(n) == CASE n = 0 -> "" [] n = 1 -> "0" [] n = 2 -> "00" [] n = 3 -> "000"
             [] OTHER -> "0000"
Digits(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3
               [] n < 10000 -> 4 [] OTHER -> 9
Pad(n, w) == (IF Digits(n) < w THEN Zero(w - Digits(n)) ELSE "") \o ToString(n)

(* trunc is one of "no", "century", "decade", "year", "month", "week" *)
CalText(n, basic, trunc) ==
    LET c == CalOf(n)
        h == IF basic THEN "" ELSE "-"
    IN  CASE trunc = "no" -> Pad(c[1], 4) \o h \o Pad(c[2], 2) \o h \o Pad(c[3], 2)
          [] trunc = "century" -> Pad(c[1] % 100, 2) \o h \o Pad(c[2], 2) \o h
                                  \o Pad(c[3], 2)
          [] trunc = "year" -> "--" \o Pad(c[2], 2) \o h \o Pad(c[3], 2)
          [] trunc = "month" -> "---" \o Pad(c[3], 2)
OrdText(n, basic, trunc) ==
    LET c == OrdOf(n)
        h == IF basic THEN "" ELSE "-"
    IN  CASE trunc = "no" -> Pad(c[1], 4) \o h \o Pad(c[2], 3)
          [] trunc = "century" -> Pad(c[1] % 100, 2) \o h \o Pad(c[2], 3)
          [] trunc = "year" -> "-" \o Pad(c[2], 3)
WeekText(n, basic, trunc) ==
    LET c == WeekOf(n)
        h == IF basic THEN "" ELSE "-"
        wd == "W" \o Pad(c[2], 2) \o h \o Pad(c[3], 1)
    IN  CASE trunc = "no" -> Pad(c[1], 4) \o h \o wd
          [] trunc = "century" -> Pad(c[1] % 100, 2) \o h \o wd
          [] trunc = "decade" -> "-" \o Pad(c[1] % 10, 1) \o h \o wd
          [] trunc = "year" -> "-" \o wd
          [] trunc = "week" -> "-W-" \o Pad(c[3], 1)

(* A truncated form is read relative to a base: it names the first day on  *)
(* or after the base which has it: in the base's own century, decade,      *)
(* year, month or week (k = 0), or in the next (k = 1).  rest is what the  *)
(* truncated form says.                                                    *)
If(c, n) == IF c /\ IsDay(n) THEN <<n>> ELSE <<>>
Cand(form, trunc, b, rest, k) ==
    CASE form = "cal" ->
            (LET y == YearOf(b)
                 m == 12 * y + CalOf(b)[2] - 1 + k
             IN  CASE trunc = "century" ->
                        (LET z == 100 * ((y \div 100) + k) + rest[1]
                         IN  IF IsCal(z, rest[2], rest[3])
                             THEN <<DayOfCal(z, rest[2], rest[3])>> ELSE <<>>)
                   [] trunc = "year" ->
                        (IF IsCal(y + k, rest[1], rest[2])
                         THEN <<DayOfCal(y + k, rest[1], rest[2])>> ELSE <<>>)
                   [] trunc = "month" ->
                        (IF IsCal(m \div 12, (m % 12) + 1, rest[1])
                         THEN <<DayOfCal(m \div 12, (m % 12) + 1, rest[1])>>
                         ELSE <<>>))
      [] form = "ord" ->
            (LET y == YearOf(b)
                 z == IF trunc = "century"
                      THEN 100 * ((y \div 100) + k) + rest[1] ELSE y + k
                 o == rest[Len(rest)]
             IN  IF IsOrd(z, o) THEN <<DayOfOrd(z, o)>> ELSE <<>>)
      [] form = "week" ->
            (LET c == WeekOf(b)
                 z == CASE trunc = "century" ->
                                100 * ((c[1] \div 100) + k) + rest[1]
                        [] trunc = "decade" ->
                                10 * ((c[1] \div 10) + k) + rest[1]
                        [] OTHER -> c[1] + k
             IN  IF trunc = "week"
                 THEN If(TRUE, DayOfWeek(c[1], c[2], rest[1]) + 7 * k)
                 ELSE IF IsWeek(z, rest[Len(rest) - 1], rest[Len(rest)])
                 THEN If(TRUE, DayOfWeek(z, rest[Len(rest) - 1],
                                         rest[Len(rest)]))
                 ELSE <<>>)

(* What may be read; 0: refused, allowed if there is no such day where one *)
(* would look first.                                                       *)
Read(form, trunc, b, rest) ==
    LET c0 == Cand(form, trunc, b, rest, 0)
        c1 == Cand(form, trunc, b, rest, 1)
        then == IF c1 = <<>> THEN {0} ELSE {c1[1]}
    IN  IF c0 = <<>> THEN {0} \cup then
        ELSE IF c0[1] >= b THEN {c0[1]} ELSE then

---------------------------------------------------------------------------
(* Times: [ms, prec, z] with prec one of "hour", "minute", "second"; z is  *)
(* <<>> or <<offset in minutes>>                                           *)

UnitMs(p) == CASE p = "hour" -> 3600000 [] p = "minute" -> 60000
               [] OTHER -> 1000

(* moving a time of day: what is left, and how many days over *)
Norm(day, ms) == <<day + (ms \div DayMs), ms % DayMs>>

(* The instant of a time point, in its own zone and in UTC *)
Local(tp) == Norm(tp.day, tp.t.ms)
Utc(tp) == IF tp.t.z = <<>> THEN Local(tp)
           ELSE Norm(tp.day, tp.t.ms - 60000 * tp.t.z[1])

Before(a, b) == (a[1] < b[1]) \/ ((a[1] = b[1]) /\ (a[2] < b[2]))

(* Fractions are written with as many places as asked for *)
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] OTHER -> 1000
TimeText(t, basic, ndp, dp) ==
    LET c == IF basic THEN "" ELSE ":"
        u == UnitMs(t.prec)
        h == Pad(t.ms \div 3600000, 2)
        m == Pad((t.ms \div 60000) % 60, 2)
        s == Pad((t.ms \div 1000) % 60, 2)
        stem == CASE t.prec = "hour" -> h
                  [] t.prec = "minute" -> h \o c \o m
                  [] OTHER -> h \o c \o m \o c \o s
        (* places of the fraction of the unit *)
        frac == (t.ms % u) \div (u \div Pow10(ndp))
    IN  IF ndp = 0 THEN stem ELSE stem \o dp \o Pad(frac, ndp)
ZoneText(z, zulu, basic, hours) ==
    IF z = <<>> THEN ""
    ELSE IF zulu THEN "Z"
    ELSE LET a == IF z[1] < 0 THEN -z[1] ELSE z[1]
             sign == IF z[1] < 0 THEN "-" ELSE "+"
         IN  sign \o Pad(a \div 60, 2) \o
             (IF hours /\ (a % 60 = 0) THEN ""
              ELSE (IF basic THEN "" ELSE ":") \o Pad(a % 60, 2))
=============================================================================
