-------------------------------- MODULE MC_P16 --------------------------------
EXTENDS RefineBase

(* Lists of dates, times, date-times and ranges of both.                   *)
Clk(p, h, mi) == Know(Know(p, "hour", h), "min", mi)
Kinds(y, m, d) == <<
  Result(0, 0, {"ENCasualDateParser"}, Dated(TRUE, y, m, d)),                                          \* 1 a date
  Result(0, 0, {"ENDayOfTheWeekParser"}, Imply(Imply(Dated(FALSE, y, m, d), "hour", 6), "min", 1)),     \* 2 an early weekday
  Result(0, 0, {"ENMonthNameMiddleEndianParser"}, Know(Dated(TRUE, y, m, d), "wday", 3)),               \* 3 a date with its weekday
  Ranged(Result(0, 0, {"ENMonthNameMiddleEndianParser"}, Dated(TRUE, y, m, 5)), Dated(TRUE, y, m, 7)),  \* 4 a range of dates
  Result(0, 0, {"ENTimeExpressionParser"}, Clk(Dated(FALSE, y, m, d), 17, 30)),                         \* 5 a time
  Result(0, 0, {"ENTimeExpressionParser", "ExtractTimeZoneAbbreviation"},
         Know(Know(Clk(Dated(FALSE, y, m, d), 9, 5), "sec", 7), "tzoffset", -300)),                     \* 6 a time with a zone
  Ranged(Result(0, 0, {"ENTimeExpressionParser"}, Clk(Dated(FALSE, y, m, d), 9, 0)), Clk(Dated(FALSE, y, m, d), 17, 0)),   \* 7 a range of times
  Ranged(Result(0, 0, {"ENTimeExpressionParser"}, Know(Clk(Dated(FALSE, y, m, d), 22, 0), "tzoffset", 60)),
         Know(Clk(Dated(FALSE, y, m, d), 2, 15), "tzoffset", 60)),                                      \* 8 a range of times across midnight
  Result(0, 0, {"ENCasualTimeParser"}, Imply(Imply(Dated(FALSE, y, m, d), "hour", 15), "min", 12)),     \* 9 a time of day
  Result(0, 0, {"ENISOFormatParser"}, Know(Clk(Dated(TRUE, y, m, d), 8, 15), "tzoffset", 0)),           \* 10 a date-time
  Result(0, 0, {"ENMonthNameParser"}, Know(Imply(Imply(Blank, "year", y), "mday", 1), "month", m)),     \* 11 a month
  Ranged(Result(0, 0, {"ENRelativeDateFormatParser"}, Dated(FALSE, y, m, 1)), Dated(FALSE, y, m, 7)),   \* 12 an implied range
  Result(0, 0, {"ENTimeLaterParser"}, Know(Clk(Dated(FALSE, y, m, d), 23, 59), "sec", 58)),             \* 13 a moment
  Result(0, 0, {"ENCasualDateParser"}, Know(Clk(Dated(TRUE, y, m, d), 13, 5), "sec", 6)),               \* 14 now
  Ranged(Result(0, 0, {"ENTimeExpressionParser"}, Know(Clk(Dated(FALSE, y, m, d), 10, 30), "sec", 30)),
         Imply(Clk(Dated(FALSE, y, m, d), 10, 30), "sec", 15)),                                         \* 15 a range of seconds
  Result(0, 0, {"ENUSHolidaysParser"}, Clk(Dated(TRUE, y, m, d), 0, 0)),                                \* 16 a holiday
  Result(0, 0, {"ENISOFormatParser"}, Know(Dated(TRUE, y, m, d), "tzoffset", 90)) >>                    \* 17 a date with a zone
K == 1..17
Pool == <<Kinds(2019, 5, 15), Kinds(2019, 1, 31),
          Kinds(2019, 12, 31), Kinds(2020, 2, 29), Kinds(9999, 12, 31)>>
\* (there is no 24:00 on the last day)
Clk24(p) == Know(Know(Imply(p, "sec", 0), "hour", 24), "min", 0)
At24 == Result(9, 3, {"ENTimeExpressionParser"}, Clk24(Dated(FALSE, 2019, 5, 15)))
To24 == Ranged(Result(9, 3, {"ENTimeExpressionParser"}, Clk(Dated(FALSE, 2019, 5, 15), 22, 30)), Clk24(Dated(FALSE, 2019, 5, 15)))
\* placed one after the other, from there: s = << <<pool, kind>>, .. >>
RECURSIVE Laid(_, _, _)
Laid(s, gaps, from) ==
  IF s = <<>> THEN <<>>
  ELSE LET len == 2 + (Len(s) % 2) IN
       <<Place(Pool[Head(s)[1]][Head(s)[2]], from, len)>> \o Laid(Tail(s), Tail(gaps), from + len + Head(gaps))
Main  == IF Deep THEN {1, 2, 4, 5, 6, 7, 8, 9, 10, 11} ELSE {1, 2, 5, 8, 9, 10}
MyPlans == <<
  {<<0>>},
  {<<1, i, p>> : i \in K, p \in 1..4},
  {<<2, i, j, x, y, g, f>> : i, j \in K, x, y \in 1..4, g \in {0, 1, 4}, f \in IF Deep THEN {0, 3} ELSE {3}},
  {<<3, i, j, k, g>> : i, j, k \in K, g \in {1, 3}},
  {<<4, i, j, k, m>> : i, j, k, m \in Main},
  {<<5, i, j, p, q>> : i, j \in K, p, q \in {0, 2, 5}},
  {<<8, i, j, g>> : i, j \in K, g \in {13, 16, 17, 40, 130, 260}},
  {<<6, i, x, k>> : i \in K, x \in {1, 4, 5}, k \in 1..2},
  {<<7, i, j, f>> : i, j \in K, f \in 1..2} >>
MyMake(n) == <<IF n[1] = 8 THEN Spaces(60) \o Spaces(60) \o Spaces(60) \o Spaces(60) \o Spaces(60) ELSE Spaces(40),
  CASE n[1] = 0 -> <<>>
    [] n[1] = 1 -> Laid(<< <<n[3], n[2]>> >>, <<0>>, 2)
    [] n[1] = 2 -> Laid(<< <<n[4], n[2]>>, <<n[5], n[3]>> >>, <<n[6], 0>>, n[7])
    [] n[1] = 3 -> Laid(<< <<1, n[2]>>, <<2, n[3]>>, <<1, n[4]>> >>, <<1, n[5], 0>>, 0)
    [] n[1] = 4 -> Laid(<< <<1, n[2]>>, <<2, n[3]>>, <<1, n[4]>>, <<4, n[5]>> >>, <<1, 1, 2, 0>>, 1)
    [] n[1] = 8 -> Laid(<< <<1, n[2]>>, <<2, n[3]>> >>, <<n[4], 0>>, 1)
    [] n[1] = 6 -> <<Place(Pool[n[3]][n[2]], 2, 5), IF n[4] = 1 THEN At24 ELSE To24>>
    [] n[1] = 7 -> IF n[4] = 1 THEN <<Place(Pool[5][n[2]], 1, 6), Place(Pool[1][n[3]], 9, 3)>>
                   ELSE <<Place(Pool[5][n[2]], 1, 6), Place(Pool[5][n[3]], 9, 3), Place(Pool[1][n[2]], 13, 3)>>
    [] n[1] = 5 -> <<Place(Pool[1][n[2]], n[4], 6), Place(Pool[2][n[3]], n[5], 3)>> >>
===============================================================================
