------------------------------- MODULE Calendar -----------------------------
(***************************************************************************)
(* The Gregorian calendar from 1400-01-01 to 9999-12-31 (what the library  *)
(* can represent).  A day is a number (day 0 is 1400-01-01, and numbers    *)
(* outside the calendar stand for days that cannot be represented); an     *)
(* instant is <<day, second of the day>>.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

DaysIn(y, m) ==
  CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
    [] m \in {4, 6, 9, 11} -> 30
    [] OTHER -> 31

\* days before month m in a common year
LOCAL Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>

LOCAL YearStart(y) ==      \* days from year 0 to year y
  365 * y + ((y + 3) \div 4) - ((y + 99) \div 100) + ((y + 399) \div 400)

LOCAL Origin == YearStart(1400)

YearOK(y) == y >= 1400 /\ y <= 9999
IsDate(y, m, d) == YearOK(y) /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)

DayNum(y, m, d) ==
  YearStart(y) - Origin + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1

LastDay == DayNum(9999, 12, 31)
OnCalendar(n) == n >= 0 /\ n <= LastDay

YearOf(n) ==
  LET guess == 1400 + (n * 20) \div 7305           \* off by at most one or two
      ys == {y \in (guess - 2)..(guess + 2) : YearStart(y) - Origin <= n /\ n < YearStart(y + 1) - Origin}
  IN CHOOSE y \in ys : TRUE

\* day number -> [y, m, d]
Civil(n) ==
  LET y == YearOf(n)
      k == n - (YearStart(y) - Origin)             \* 0-based day of the year
      lp == IF Leap(y) THEN 1 ELSE 0
      start(m) == Before[m] + (IF m > 2 THEN lp ELSE 0)
      m == CHOOSE mm \in 1..12 : start(mm) <= k /\ (mm = 12 \/ k < start(mm + 1))
  IN [y |-> y, m |-> m, d |-> k - start(m) + 1]

\* Sunday = 0  (1400-01-01 was, proleptically, a Wednesday)
WeekdayOf(n) == (n + 3) % 7

(***************************************************************************)
(* Adding months keeps the day of the month, cut to the length of the      *)
(* month; the last day of a month stays the last day.                      *)
(***************************************************************************)
NoDay == -1
AddMonths(n, k) ==
  LET c == Civil(n)
      t == c.y * 12 + (c.m - 1) + k
      y == t \div 12
      m == (t % 12) + 1
      last == DaysIn(y, m)
      d == IF c.d = DaysIn(c.y, c.m) \/ c.d > last THEN last ELSE c.d
  IN IF YearOK(y) THEN DayNum(y, m, d) ELSE NoDay

AddYears(n, k) == AddMonths(n, 12 * k)

\* ---- instants ----------------------------------------------------------
LOCAL DivDown(a, b) == a \div b     \* rounds down; the remainder is never negative
Plus(t, days, secs) ==
  LET s == t[2] + secs IN <<t[1] + days + DivDown(s, 86400), s % 86400>>

AddHours(t, k)   == Plus(t, DivDown(k, 24), (k % 24) * 3600)
AddMinutes(t, k) == Plus(t, DivDown(k, 1440), (k % 1440) * 60)
AddSeconds(t, k) == Plus(t, DivDown(k, 86400), k % 86400)

EarlierThan(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] < u[2])

HourOf(t)   == t[2] \div 3600
MinuteOf(t) == (t[2] % 3600) \div 60
SecondOf(t) == t[2] % 60

\* ---- the n-th / last weekday of a month --------------------------------
NthWeekday(y, m, wd, nth) ==
  LET first == DayNum(y, m, 1) IN first + ((wd - WeekdayOf(first)) % 7) + 7 * (nth - 1)
LastWeekday(y, m, wd) ==
  LET last == DayNum(y, m, DaysIn(y, m)) IN last - ((WeekdayOf(last) - wd) % 7)

Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
