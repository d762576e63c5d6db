------------------------------- MODULE Meanings -----------------------------
(***************************************************************************)
(* What each kind of expression means.  Every operator takes an occurrence *)
(* m of the expression (see Regex!FindAll) and the reference instant, and  *)
(* yields the result it denotes, or Nothing.  Whatever would lie off the   *)
(* calendar denotes nothing.                                               *)
(***************************************************************************)
EXTENDS Patterns, Lexicon, Results

LOCAL Sunday == 0  LOCAL Monday == 1  LOCAL Thursday == 4

\* ------------------------------------------------------------------------
\* Casual dates.  "tomorrow" said in the hour after midnight is today.
\* ------------------------------------------------------------------------
CasualDate(m, ref) ==
  LET night == StartsWith(m.str, "last")
      day == CASE m.str \in {"tomorrow", "tmr"} /\ HourOf(ref) > 0 -> ref[1] + 1
               [] m.str = "yesterday" -> ref[1] - 1
               [] night /\ HourOf(ref) > 6 -> ref[1] - 1
               [] OTHER -> ref[1]
      clock == CASE m.str = "tonight" -> Imply(Blank, "hour", 22)
                 [] m.str = "yesterday" -> Imply(Blank, "hour", HourOf(ref))
                 [] night -> Imply(Blank, "hour", 0)
                 [] m.str = "now" -> KnowClock(Blank, ref)
                 [] OTHER -> Blank
  IN IF OnCalendar(day)
     THEN Result(m.at, m.len, {"ENCasualDateParser"}, KnowDate(clock, day))
     ELSE Nothing

\* ------------------------------------------------------------------------
\* Casual times of day, on the reference day and minute.
\* ------------------------------------------------------------------------
CasualHour(w) ==
  CASE w = "morning" -> 6 [] w = "noon" -> 12 [] w = "afternoon" -> 15 [] w \in {"evening", "night"} -> 20

CasualTime(m, ref) ==
  LET p == ImplyDate(Imply(Blank, "hour", CasualHour(m.g[4])), ref[1])
  IN Result(m.at, m.len, {"ENCasualTimeParser"},
            Imply(Imply(p, "wday", WeekdayOf(ref[1])), "min", MinuteOf(ref)))

\* ------------------------------------------------------------------------
\* Weekdays of this, the last or the next week; weeks start on Sunday.
\* ------------------------------------------------------------------------
WeekdayExpr(m, ref) ==
  LET wd   == Lookup(Weekdays, m.g[4])
      word == IF m.g[3] = "" THEN m.g[5] ELSE IF m.g[5] = "" THEN m.g[3] ELSE ""
      same == ref[1] - WeekdayOf(ref[1]) + wd          \* that day of the reference week
      day  == CASE word = "last" -> same - 7 [] word = "next" -> same + 7 [] OTHER -> same
      date == IF word \in {"last", "next"} THEN KnowDate(Blank, day) ELSE ImplyDate(Blank, day)
      p    == CASE m.g[2] \in {"early", "earlier"} -> Imply(Imply(date, "hour", 6), "min", 1)
                [] m.g[2] = "late" -> Imply(Imply(date, "hour", 20), "min", 1)
                [] OTHER -> date
  IN IF OnCalendar(day) THEN Result(m.at, m.len, {"ENDayOfTheWeekParser"}, p) ELSE Nothing

\* ------------------------------------------------------------------------
\* Amounts of units.
\* ------------------------------------------------------------------------
Half == -2

AmountOf(w) ==
  CASE Has(NumberWords, w) -> Lookup(NumberWords, w)
    [] w \in {"a", "an"}   -> 1
    [] Contains(w, "few")  -> 3
    [] Contains(w, "half") -> Half
    [] OTHER -> NumOf(w)

UnitOf(w) ==
  CASE StartsWith(w, "sec") -> "second"
    [] StartsWith(w, "min") -> "minute"
    [] StartsWith(w, "h")   -> "hour"
    [] StartsWith(w, "d")   -> "day"
    [] StartsWith(w, "w")   -> "week"
    [] StartsWith(w, "mo")  -> "month"
    [] StartsWith(w, "y")   -> "year"

IsDateUnit(u) == u \in {"day", "week", "month", "year"}

(***************************************************************************)
(* Amounts that lead beyond the calendar from every day: more days than it *)
(* has (of months of 28 days, years of 365 days).                          *)
(***************************************************************************)
LOCAL DaysOfCalendar == 8600 * 366

Beyond(n, unit) ==
  CASE unit = "year"  -> n > DaysOfCalendar \div 365
    [] unit = "month" -> n > DaysOfCalendar \div 28
    [] unit = "week"  -> n > DaysOfCalendar \div 7
    [] unit = "day"   -> n > DaysOfCalendar
    [] unit = "hour"  -> n > DaysOfCalendar * 24
    [] OTHER -> FALSE

\* day +- whole amounts of date units
ShiftDay(day, n, unit) ==
  IF ~OnCalendar(day) \/ Beyond(IF n < 0 THEN -n ELSE n, unit) THEN NoDay
  ELSE CASE unit = "day"   -> day + n
         [] unit = "week"  -> day + 7 * n
         [] unit = "month" -> AddMonths(day, n)
         [] unit = "year"  -> AddYears(day, n)

ShiftTime(t, n, unit) ==
  CASE unit = "hour"   -> AddHours(t, n)
    [] unit = "minute" -> AddMinutes(t, n)
    [] unit = "second" -> AddSeconds(t, n)

\* half a unit, as a whole amount of a smaller one
HalfOf(unit) ==
  CASE unit = "year"   -> <<6, "month">>
    [] unit = "month"  -> <<15, "day">>
    [] unit = "week"   -> <<3, "day">>
    [] unit = "day"    -> <<12, "hour">>
    [] unit = "hour"   -> <<30, "minute">>
    [] unit = "minute" -> <<30, "second">>
    [] unit = "second" -> <<1, "second">>

(***************************************************************************)
(* The instant an amount n of the unit away from ref (sign = 1 or -1), all *)
(* of it implied: the date, and the time unless the unit is a date unit.   *)
(***************************************************************************)
Shifted(ref, n, unit, sign) ==
  LET h == n = Half
      k == sign * (IF h THEN HalfOf(unit)[1] ELSE n)
      u == IF h THEN HalfOf(unit)[2] ELSE unit
  IN IF IsDateUnit(unit) /\ IsDateUnit(u)
     THEN LET day == ShiftDay(ref[1], k, u)
          IN IF OnCalendar(day) THEN ImplyDate(Blank, day) ELSE Nothing
     ELSE LET t == ShiftTime(ref, k, u) IN
          IF ~OnCalendar(t[1]) THEN Nothing
          ELSE IF IsDateUnit(unit)      \* half a day: the seconds are left open
               THEN Imply(Imply(ImplyDate(Blank, t[1]), "hour", HourOf(t)), "min", MinuteOf(t))
               ELSE ImplyClock(ImplyDate(Blank, t[1]), t)

\* in / within ...
Deadline(m, ref) ==
  LET n == AmountOf(m.g[3])
      p == IF n = NoNum THEN Nothing ELSE Shifted(ref, n, UnitOf(m.g[4]), 1)
  IN IF p = Nothing THEN Nothing ELSE Result(m.at, m.len, {"ENDeadlineFormatParser"}, p)

\* this / next / last / past ...
Relative(m, ref) ==
  LET unit == UnitOf(m.g[4])
      n    == IF m.g[3] = "" THEN 1 ELSE AmountOf(m.g[3])
      c    == Civil(ref[1])
      tags == {"ENRelativeDateFormatParser"}
      res(p) == Result(m.at, m.len, tags, p)
  IN IF m.g[2] = "this" THEN
       IF m.g[3] # "" THEN Nothing
       ELSE CASE unit = "week" ->
                   LET sun == ref[1] - WeekdayOf(ref[1]) IN
                   IF OnCalendar(sun) /\ OnCalendar(sun + 6)
                   THEN Ranged(res(ImplyDate(Blank, sun)), ImplyDate(Blank, sun + 6)) ELSE Nothing
              [] unit = "month" ->
                   LET my == Know(Know(Blank, "month", c.m), "year", c.y) IN
                   Ranged(res(Imply(my, "mday", 1)), Imply(my, "mday", DaysIn(c.y, c.m)))
              [] unit = "year" ->
                   LET y == Know(Blank, "year", c.y) IN
                   Ranged(res(Imply(Imply(y, "month", 1), "mday", 1)),
                          Imply(Imply(y, "month", 12), "mday", 31))
              [] OTHER -> Nothing
     ELSE LET sign == IF m.g[2] = "next" THEN 1 ELSE -1
              half0 == n = Half /\ unit = "second"         \* half a second is no time
              p == IF n = NoNum THEN Nothing ELSE Shifted(ref, IF half0 THEN 0 ELSE n, unit, sign)
          IN IF p = Nothing THEN Nothing ELSE res(p)

(***************************************************************************)
(* ... ago / later.  The amounts of all units add up; of two amounts of    *)
(* one unit the second one counts, half an amount adds to its smaller      *)
(* unit.  Date units move the day, then time units move the instant.  No   *)
(* amount may lead beyond the calendar.                                    *)
(***************************************************************************)
LOCAL Units == {"second", "minute", "hour", "day", "week", "month", "year"}

\* whole amounts and what halves of the larger units add to them
LOCAL NoAmounts == [whole |-> [u \in Units |-> 0], more |-> [u \in Units |-> 0]]

RECURSIVE Collect(_, _)
Collect(str, acc) ==
  LET S == Scan(str)
      f == IF str = "" THEN NoMatch ELSE Find(S, FragmentG, 1)
  IN IF f = NoMatch THEN acc
     ELSE LET o == Occurrence(S, f)
              u == UnitOf(o.g[2])
              n == AmountOf(o.g[1])
              next == IF n = Half
                      THEN [acc EXCEPT !.more[HalfOf(u)[2]] = @ + HalfOf(u)[1]]
                      ELSE [acc EXCEPT !.whole[u] = n, !.more[u] = 0]
          IN IF n = NoNum \/ Beyond(n, u) THEN Nothing
             ELSE Collect(SubSeq(str, o.len + 1, Len(str)), next)

Moved(m, ref, sign, tag) ==
  LET f == Collect(m.g[2], NoAmounts)
      some(u)     == f.whole[u] > 0 \/ f.more[u] > 0
      days(d, u)  == ShiftDay(d, sign * (f.whole[u] + f.more[u]), u)
      clock(t, u) == ShiftTime(ShiftTime(t, sign * f.whole[u], u), sign * f.more[u], u)
      day == days(days(days(days(ref[1], "day"), "month"), "week"), "year")
      at  == clock(clock(clock(ref, "hour"), "minute"), "second")
      t   == <<at[1] + day - ref[1], at[2]>>
      timed == some("hour") \/ some("minute") \/ some("second")
      dated == some("day") \/ some("week") \/ some("month") \/ some("year")
      base  == IF timed THEN KnowClock(Blank, t) ELSE Blank
  IN IF f = Nothing THEN Nothing
     ELSE IF ~OnCalendar(day) \/ ~OnCalendar(t[1]) THEN Nothing
     ELSE Result(m.at, m.len, {tag}, IF dated THEN KnowDate(base, t[1]) ELSE ImplyDate(base, t[1]))

Ago(m, ref)   == Moved(m, ref, -1, "ENTimeAgoFormatParser")
Later(m, ref) == Moved(m, ref, 1, "ENTimeLaterParser")

\* ------------------------------------------------------------------------
\* last / next <n> weeks, this week.
\* ------------------------------------------------------------------------
WeekExpr(m, ref) ==
  LET n == CASE m.g[3] # "" -> NumOf(m.g[3])
             [] m.g[4] # "" -> IF Has(NumberWords, m.g[4]) THEN Lookup(NumberWords, m.g[4]) ELSE NoNum
             [] OTHER -> 1
      day == CASE n = NoNum -> NoDay
               [] StartsWith(m.g[2], "last") -> ShiftDay(ref[1], -n, "week")
               [] StartsWith(m.g[2], "next") -> ShiftDay(ref[1], n, "week")
               [] OTHER -> ref[1]
  IN IF OnCalendar(day) THEN Result(m.at, m.len, {}, ImplyDate(Blank, day)) ELSE Nothing

\* ------------------------------------------------------------------------
\* ISO dates and times.
\* ------------------------------------------------------------------------
Iso(m, ref) ==
  LET num(k) == NumOf(m.g[k])
      date == Know(Know(Know(Blank, "year", num(2)), "month", num(3)), "mday", num(4))
      hm == Know(Know(date, "hour", num(5)), "min", num(6))
      hms == IF m.g[7] = "" THEN hm ELSE Know(hm, "sec", num(7))
      zone == IF m.g[9] = "" THEN 0
              ELSE LET mag == NumOf(SubSeq(m.g[9], 2, 3)) * 60 + (IF m.g[10] = "" THEN 0 ELSE num(10))
                   IN IF StartsWith(m.g[9], "-") THEN -mag ELSE mag
  IN IF num(3) \notin 1..12 \/ num(4) \notin 1..31 THEN Nothing
     ELSE Result(m.at, m.len, {"ENISOFormatParser"},
                 IF m.g[5] = "" THEN date ELSE Know(hms, "tzoffset", zone))

\* ------------------------------------------------------------------------
\* Months and days of months.  Without a year, the year that brings the
\* date nearest to the reference date.
\* ------------------------------------------------------------------------
EraYear(y, era) ==
  CASE Contains(era, "be") -> y - 543
    [] Contains(era, "bc") -> -y
    [] Contains(era, "ad") -> y
    [] OTHER -> IF y < 100 THEN y + 2000 ELSE y

\* the year, or NoNum if the day does not exist in the reference year (or a neighbour is off the calendar)
NearestYear(ref, mo, d) ==
  LET y == Civil(ref[1]).y
      here == DayNum(y, mo, d)
      prev == AddYears(here, -1)
      next == AddYears(here, 1)
      far(n) == Abs(n - ref[1])
  IN IF ~IsDate(y, mo, d) THEN NoNum
     ELSE IF prev = NoDay \/ next = NoDay THEN NoNum
     ELSE IF far(next) < far(here) THEN Civil(next).y
     ELSE IF far(prev) < far(here) THEN Civil(prev).y
     ELSE y

MonthExpr(m, ref) ==
  LET lead == Len(m.g[1])
      mo == Lookup(Months, m.g[2])
      near == NearestYear(ref, mo, 1)
      p == IF m.g[3] # "" THEN Know(Blank, "year", EraYear(NumOf(m.g[3]), m.g[4]))
           ELSE Imply(Blank, "year", near)
  IN IF m.g[3] = "" /\ near = NoNum THEN Nothing
     ELSE Result(m.at + lead, m.len - lead, {"ENMonthNameParser"}, Know(Imply(p, "mday", 1), "month", mo))

MonthDay(m, ref) ==
  LET mo == Lookup(Months, m.g[3])
      day(word, num) == IF num = "" THEN OrdinalOf(word) ELSE NumOf(num)
      d == day(m.g[4], m.g[5])
      given == m.g[8] # "" \/ m.g[10] # ""
      y == IF given THEN EraYear(NumOf(m.g[8] \o m.g[10]), m.g[9] \o m.g[11])
           ELSE NearestYear(ref, mo, d)
      date == Know(Know(Know(Blank, "year", y), "month", mo), "mday", d)
      from == IF m.g[2] = "" THEN date ELSE Know(date, "wday", Lookup(Weekdays, m.g[2]))
      res == Result(m.at, m.len, {"ENMonthNameMiddleEndianParser"}, from)
  IN IF d \notin 1..31 \/ (~given /\ y = NoNum) THEN Nothing
     ELSE IF m.g[6] = "" THEN res
     ELSE Ranged(res, Know(Know(Know(from, "mday", day(m.g[6], m.g[7])), "hour", 23), "min", 59))

\* ------------------------------------------------------------------------
\* Clock times.
\* ------------------------------------------------------------------------
\* "930" and "9:30" are 9 hours 30 minutes
ClockHour(h, min) ==
  CASE h = "noon" -> 12
    [] h = "midnight" -> 0
    [] OTHER -> IF min = "" /\ NumOf(h) > 100 THEN NumOf(h) \div 100 ELSE NumOf(h)
ClockMinute(h, min) ==
  CASE min # "" -> NumOf(min)
    [] h \in {"noon", "midnight"} -> 0
    [] OTHER -> IF NumOf(h) > 100 THEN NumOf(h) % 100 ELSE 0

InMorning(h)   == IF h = 12 THEN 0 ELSE h
InAfternoon(h) == IF h = 12 THEN 12 ELSE h + 12

\* applies a meridiem (or nothing, or o'clock) to an hour
Apply(half, h) ==
  CASE StartsWith(half, "a") -> InMorning(h)
    [] StartsWith(half, "p") -> InAfternoon(h)
    [] OTHER -> h

Clock(m, ref) ==
  LET h0 == ClockHour(m.g[2], m.g[3])
      m0 == ClockMinute(m.g[2], m.g[3])
      bad == \/ m.g[4] # "" /\ NumOf(m.g[4]) >= 60
             \/ m0 >= 60 \/ h0 > 24
             \/ m.g[6] # "" /\ h0 > 12
      h1 == Apply(m.g[6], h0)
      secs(p, w) == IF w = "" THEN p ELSE Know(p, "sec", NumOf(w))
      start(h) == ImplyDate(Know(Know(secs(Blank, m.g[4]), "hour", h), "min", m0), ref[1])
      res(h) == Result(m.at, m.len, {"ENTimeExpressionParser"}, start(h))
      \* the part behind "to"
      H0 == ClockHour(m.g[10], m.g[11])
      M0 == ClockMinute(m.g[10], m.g[11])
      noEnd == \/ m.g[7] = ""
               \/ MatchesWhole(m.g[7], OffsetTree, 1) # NoMatch
               \/ M0 >= 60 \/ H0 > 24
               \/ m.g[14] # "" /\ H0 > 12
      badSec == m.g[12] # "" /\ NumOf(m.g[12]) >= 60
      \* an afternoon end makes a start without meridiem an afternoon hour, too
      h2 == IF StartsWith(m.g[14], "p") /\ m.g[6] = "" /\ h1 < 12 THEN h1 + 12 ELSE h1
      H1 == Apply(IF m.g[14] # "" THEN m.g[14] ELSE m.g[6], H0)
      end(day) == ImplyDate(Know(Know(secs(Blank, m.g[12]), "hour", H1), "min", M0), day)
      wraps == EarlierThan(Instant(end(ref[1])), Instant(start(h2)))
      lastday == IF wraps THEN ref[1] + 1 ELSE ref[1]
  IN IF bad THEN Nothing
     ELSE IF noEnd THEN res(h1)
     ELSE IF badSec THEN res(h2)
     ELSE IF ~OnCalendar(lastday) THEN Nothing
     ELSE Ranged(res(h2), end(lastday))

\* ------------------------------------------------------------------------
\* US holidays of the reference year.
\* ------------------------------------------------------------------------
FixedDay(str) ==
  CASE Contains(str, "independence") -> <<7, 4>>
    [] Contains(str, "new year") -> IF Contains(str, "eve") THEN <<12, 31>> ELSE <<1, 1>>
    [] Contains(str, "veteran") -> <<11, 11>>
    [] Contains(str, "christmas") -> IF Contains(str, "eve") THEN <<12, 24>> ELSE <<12, 25>>
    [] OTHER -> <<>>

MovingDay(str, y) ==
  CASE Contains(str, "mlk") \/ Contains(str, "martin luther king") -> NthWeekday(y, 1, Monday, 3)
    [] Contains(str, "labor") -> NthWeekday(y, 9, Monday, 1)
    [] Contains(str, "president") -> NthWeekday(y, 2, Monday, 3)
    [] Contains(str, "thanksgiving") -> NthWeekday(y, 11, Thursday, 4)
    [] Contains(str, "black") -> NthWeekday(y, 11, Thursday, 4) + 1
    [] Contains(str, "memorial") -> LastWeekday(y, 5, Monday)
    [] Contains(str, "columbus") -> NthWeekday(y, 10, Monday, 2)
    [] OTHER -> NoDay          \* e.g. two blanks within a name

Holiday(m, ref) ==
  LET y == Civil(ref[1]).y
      fixed == FixedDay(m.str)
      day == IF fixed # <<>> THEN DayNum(y, fixed[1], fixed[2]) ELSE MovingDay(m.str, y)
      date == IF fixed # <<>> THEN KnowDate(Blank, day)
              ELSE Know(KnowDate(Blank, day), "wday", WeekdayOf(day))
  IN IF day = NoDay THEN Nothing
     ELSE Result(m.at, m.len, {"ENUSHolidaysParser"}, Know(Know(date, "hour", 0), "min", 0))

(***************************************************************************)
(* The parsers, in the order the program runs them ("rel" is not one of    *)
(* the program's, only of the library's).                                  *)
(***************************************************************************)
ProgramParsers == <<"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp">>
AllParsers == ProgramParsers \o <<"rel">>

GrammarOf ==
  [ctp |-> CasualTimeG, dfp |-> DeadlineG, dow |-> WeekdayG, cdp |-> CasualDateG, mme |-> MonthDayG,
   tlp |-> LaterG, mnp |-> MonthG, tap |-> AgoG, txp |-> ClockG, iso |-> IsoG, hol |-> HolidayG,
   wxp |-> WeekG, rel |-> RelativeG]

Meaning(parser, m, ref) ==
  CASE parser = "ctp" -> CasualTime(m, ref)
    [] parser = "dfp" -> Deadline(m, ref)
    [] parser = "dow" -> WeekdayExpr(m, ref)
    [] parser = "cdp" -> CasualDate(m, ref)
    [] parser = "mme" -> MonthDay(m, ref)
    [] parser = "tlp" -> Later(m, ref)
    [] parser = "mnp" -> MonthExpr(m, ref)
    [] parser = "tap" -> Ago(m, ref)
    [] parser = "txp" -> Clock(m, ref)
    [] parser = "iso" -> Iso(m, ref)
    [] parser = "hol" -> Holiday(m, ref)
    [] parser = "wxp" -> WeekExpr(m, ref)
    [] parser = "rel" -> Relative(m, ref)

\* every place of the (lower-case) text where the parser recognises its expression
Occurrences(parser, text) == IF text = "" THEN <<>> ELSE FindAll(Scan(text), GrammarOf[parser])

RECURSIVE Parse(_, _, _)
\* the results of a parser, from its occurrences
Parse(parser, occ, ref) ==
  IF occ = <<>> THEN <<>>
  ELSE LET r == Meaning(parser, Head(occ), ref)
           more == Parse(parser, Tail(occ), ref)
       IN IF Meant(r) THEN <<r>> \o more ELSE more
=============================================================================
