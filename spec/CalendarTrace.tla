--------------------------- MODULE CalendarTrace ---------------------------
(* Validates uses of pyslet.iso8601: each event is a separate question.     *)
EXTENDS TraceCheck, Calendar

DInit(cfg) == {0}

(* Reduced dates: [p, v] with p "month" (v = months since year 0), "year",  *)
(* "century", "week" (v = the Monday)                                       *)
RedValid(p, v) ==
    CASE p = "month" -> v \in 12..(9999 * 12 + 11)
      [] p = "year" -> v \in 1..9999
      [] p = "century" -> v \in 0..99
      [] p = "week" -> IsDay(v)
RedText(p, v, basic) ==
    CASE p = "month" -> Pad(v \div 12, 4) \o "-" \o Pad((v % 12) + 1, 2)
      [] p = "year" -> Pad(v, 4)
      [] p = "century" -> Pad(v, 2)
      [] p = "week" -> (LET c == WeekOf(v) IN
            Pad(c[1], 4) \o (IF basic THEN "W" ELSE "-W") \o Pad(c[2], 2))

(* A truncated form of reduced precision names the first month, year or     *)
(* week from that of the base on, which ends as the form says: its number   *)
(* (for weeks, that of the year) is rest modulo mod                         *)
RedRead(p, b, mod, rest, w) ==
    LET c == CalOf(b)  k == WeekOf(b)
        from == CASE p = "month" -> c[1] * 12 + c[2] - 1
                  [] p = "year" -> c[1]
                  [] p = "week" -> k[1]
        v == from + ((rest - from) % mod)
    IN  IF p # "week" THEN v
        ELSE DayOfWeek(IF v = from /\ w < k[2] THEN v + mod ELSE v, w, 1)

DateText(f) ==
    CASE f.form = "cal" -> CalText(f.n, f.basic, f.trunc)
      [] f.form = "ord" -> OrdText(f.n, f.basic, f.trunc)
      [] f.form = "week" -> WeekText(f.n, f.basic, f.trunc)

GoodDate(e) ==
    CASE e.form = "cal" -> IsCal(e.v[1], e.v[2], e.v[3])
      [] e.form = "ord" -> IsOrd(e.v[1], e.v[2])
      [] e.form = "week" -> /\ e.v[1] \in 0..9999
                            /\ IsWeek(e.v[1], e.v[2], e.v[3])
                            /\ IsDay(DayOfWeek(e.v[1], e.v[2], e.v[3]))
DayOfForm(e) ==
    CASE e.form = "cal" -> DayOfCal(e.v[1], e.v[2], e.v[3])
      [] e.form = "ord" -> DayOfOrd(e.v[1], e.v[2])
      [] e.form = "week" -> DayOfWeek(e.v[1], e.v[2], e.v[3])

(* What is left of a time written with ndp places *)
Cut(t, ndp) == LET q == UnitMs(t.prec) \div Pow10(ndp) IN
    [t EXCEPT !.ms = @ - (@ % q)]

Cmp(e, lt, eq, ok) ==
    IF ~ok THEN (e.lt = "error") /\ (e.gt = "error") /\ ~e.eq /\ e.ne
    ELSE /\ e.lt = (IF lt THEN "yes" ELSE "no")
         /\ e.gt = (IF ~lt /\ ~eq THEN "yes" ELSE "no")
         /\ e.le = (IF lt \/ eq THEN "yes" ELSE "no")
         /\ e.ge = (IF ~lt THEN "yes" ELSE "no")
         /\ e.eq = eq /\ e.ne = ~eq
         /\ (eq => e.hash)

InDay(r) == IF IsDay(r[1]) THEN r ELSE <<>>

OK(e) ==
    CASE e.k = "day" ->
            /\ e.cal = CalOf(e.n) /\ e.ord = OrdOf(e.n) /\ e.week = WeekOf(e.n)
            /\ DayOfJulian(e.jul[1], e.jul[2], e.jul[3]) = e.n
            /\ e.jul[2] \in 1..12 /\ e.jul[3] \in 1..JMonthLen(e.jul[1], e.jul[2])
            /\ \A i \in 1..Len(e.from) : e.from[i] = e.n
            /\ e.leap = Leap(CalOf(e.n)[1])
            /\ e.prev = (IF IsDay(e.n - 1) THEN e.n - 1 ELSE 0)
            /\ e.next = (IF IsDay(e.n + 1) THEN e.n + 1 ELSE 0)
      [] e.k = "offset" -> e.r = (IF IsDay(e.n + e.by) THEN e.n + e.by ELSE 0)
      [] e.k = "text" ->
            /\ e.text = DateText(e)
            /\ e.r \in Read(e.form, e.trunc, e.b, e.rest)
      [] e.k = "full" -> (e.text = DateText(e)) /\ (e.r = e.n)
      [] e.k = "make" -> e.r = (IF GoodDate(e) THEN DayOfForm(e) ELSE 0)
      [] e.k = "reduced" ->
            /\ e.text = RedText(e.p, e.v, e.basic)
            /\ e.back = e.v
            /\ e.r = (IF RedValid(e.p, e.v + e.by) THEN <<e.v + e.by>> ELSE <<>>)
      [] e.k = "redtrunc" ->
            LET v == RedRead(e.p, e.b, e.mod, e.rest, e.w) IN
            e.r = (IF RedValid(e.p, v) THEN <<v>> ELSE <<>>)
      [] e.k = "redcmp" -> Cmp(e, e.a < e.b, e.a = e.b, TRUE)
      [] e.k = "cmp" -> Cmp(e, e.a < e.b, e.a = e.b, TRUE)
      [] e.k = "time" ->
            /\ e.text = TimeText(e.t, e.basic, e.ndp, e.dp) \o
                        ZoneText(e.t.z, e.zulu, e.basic, e.hours)
            /\ e.back = Cut(e.t, e.ndp)
      [] e.k = "tshift" ->
            LET by == 60000 * (e.z - e.t.z[1])
                r == Norm(0, e.t.ms + by)
            IN  IF e.err THEN (e.t.prec = "hour") /\ (by % 3600000 # 0)
                ELSE (e.r.ms = r[2]) /\ (e.over = r[1]) /\ (e.r.z = <<e.z>>)
                     /\ (e.r.prec = e.t.prec)
      [] e.k = "toffset" ->
            LET r == Norm(0, e.t.ms + e.by) IN
            (e.r.ms = r[2]) /\ (e.over = r[1]) /\ (e.r.z = e.t.z)
                     /\ (e.r.prec = e.t.prec)
      [] e.k = "prec" ->
            LET q == UnitMs(e.p) IN
            e.r = [e.t EXCEPT !.prec = e.p,
                              !.ms = IF e.cut THEN @ - (@ % q) ELSE @]
      [] e.k = "tp" ->
            (* 24:00 may be left as it is in the zone it was given in *)
            /\ e.text = DateText(e) \o "T" \o TimeText(e.t, e.basic, e.ndp, ".")
                        \o ZoneText(e.t.z, e.zulu, e.basic, FALSE)
            /\ e.back = [day |-> e.n, t |-> Cut(e.t, e.ndp)]
      [] e.k = "tpcmp" ->
            LET ok == (e.a.t.prec = e.b.t.prec) /\ (Len(e.a.t.z) = Len(e.b.t.z))
                x == Utc(e.a)
                y == Utc(e.b)
            IN  Cmp(e, Before(x, y), x = y, ok)
      [] e.k = "tpshift" ->
            LET u == Utc(e.a)
                r == Norm(u[1], u[2] + 60000 * e.z)
            IN  IF e.err
                THEN \/ ~IsDay(r[1])
                     \/ (e.a.t.prec = "hour") /\ ((e.z - e.a.t.z[1]) % 60 # 0)
                ELSE (Local(e.r) = r) /\ (e.r.t.z = <<e.z>>) /\
                     (e.r.t.prec = e.a.t.prec)
      [] e.k = "unix" ->
            (* days since 1970-01-01, ms *)
            LET d == DayOfCal(1970, 1, 1) IN
            /\ e.r.day = d + e.u[1] /\ e.r.t.ms = e.u[2] /\ e.r.t.z = <<0>>
            /\ e.back = e.u
      [] e.k = "unixof" ->
            LET u == Utc(e.a) IN
            e.u = <<u[1] - DayOfCal(1970, 1, 1), u[2]>>
      [] OTHER -> FALSE

DStep(s, e) == IF OK(e) THEN {s} ELSE {}

DWhy(s, e) ==
    CASE e.k = "day" -> <<CalOf(e.n), OrdOf(e.n), WeekOf(e.n)>>
      [] e.k = "redtrunc" -> <<RedRead(e.p, e.b, e.mod, e.rest, e.w)>>
      [] e.k = "text" -> <<DateText(e), Read(e.form, e.trunc, e.b, e.rest)>>
      [] e.k = "full" -> <<DateText(e), e.n>>
      [] e.k = "make" -> <<IF GoodDate(e) THEN DayOfForm(e) ELSE 0>>
      [] e.k = "reduced" -> <<RedText(e.p, e.v, e.basic)>>
      [] e.k = "time" -> <<TimeText(e.t, e.basic, e.ndp, e.dp) \o
                           ZoneText(e.t.z, e.zulu, e.basic, e.hours),
                           Cut(e.t, e.ndp)>>
      [] e.k = "tpcmp" -> <<Utc(e.a), Utc(e.b)>>
      [] e.k = "tshift" -> Norm(0, e.t.ms + 60000 * (e.z - e.t.z[1]))
      [] e.k = "toffset" -> Norm(0, e.t.ms + e.by)
      [] OTHER -> <<"see the specification">>
=============================================================================
