-------------------------------- MODULE Moments -----------------------------
(***************************************************************************)
(* Reference instants worth exploring: calendar borders.                   *)
(***************************************************************************)
EXTENDS Calendar

On(y, m, d) == DayNum(y, m, d)
At(h, mi, s) == h * 3600 + mi * 60 + s
Moments(days, secs) == days \X secs

\* a week within a month, and one across the turn of the year
PlainWeek == On(2019, 5, 12)..On(2019, 5, 18)
YearWeek  == On(2019, 12, 29)..On(2020, 1, 4)
\* around the leap day, and around a February without one
LeapWeek  == On(2020, 2, 26)..On(2020, 3, 3)
BareWeek  == On(2019, 2, 26)..On(2019, 3, 3)
\* ends of long and short months
MonthEnds == {On(2019, 1, 31), On(2019, 4, 30), On(2019, 8, 31), On(2019, 11, 30)}
\* century years: 1900 and 2100 are no leap years, 2000 is
Centuries == {On(1900, 2, 28), On(2000, 2, 29), On(2100, 2, 28), On(1899, 12, 31)}
FarDays   == {On(1402, 3, 15), On(1752, 9, 3), On(9996, 2, 29)}

SomeDays  == {On(2019, 5, 15), On(2019, 1, 31), On(2020, 2, 29), On(2019, 12, 31), On(2020, 1, 1)}
KeyDays   == SomeDays \cup MonthEnds \cup {On(2019, 2, 28), On(2019, 3, 1), On(2020, 2, 28), On(2016, 3, 31),
             On(2018, 7, 4), On(2100, 2, 28)}
AllDays   == PlainWeek \cup YearWeek \cup LeapWeek \cup BareWeek \cup MonthEnds \cup Centuries \cup FarDays \cup KeyDays

\* every day of a common and a leap year, and every minute of a day
TwoYears  == On(2019, 1, 1)..On(2020, 12, 31)
Minutes   == {At(h, mi, (7 * mi) % 60) : h \in 0..23, mi \in 0..59}

SomeSecs  == {At(13, 5, 6), 0, At(23, 59, 59)}
KeySecs   == SomeSecs \cup {At(0, 30, 0), At(1, 0, 0), At(6, 59, 59), At(7, 0, 0), At(11, 59, 30), At(12, 0, 0), At(23, 30, 15)}
HourSecs  == {At(h, 17, 43) : h \in 0..23}
AllSecs   == KeySecs \cup HourSecs
=============================================================================
