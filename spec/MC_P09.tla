-------------------------------- MODULE MC_P09 --------------------------------
EXTENDS MCBase, Guarantees

WordNums == {"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}
Amounts  == WordNums \cup {"", "few", "half", "half a", "half an", "0", "1", "2", "5", "13", "24", "30", "31", "60", "90", "100", "365", "1000", "010", "08", "0000000000012"}
UnitWords == {"second", "seconds", "min", "mins", "minute", "minutes", "hour", "hours", "day", "days", "week", "weeks", "month",
              "months", "year", "years"}
Long == {"second", "minute", "hour", "day", "week", "month", "year"}
Gap(a) == IF a = "" THEN "" ELSE a \o " "
Large9 == {w \o " " \o n \o " " \o u : w \in {"next", "last"}, n \in LargeCounts, u \in Long}
MyTexts == <<{w \o " " \o Gap(a) \o u : w \in {"this", "next", "last", "past"}, a \in Amounts, u \in UnitWords}, {"Next  Week", "nextweek", "next 2weeks", "this  month", "last thirteen days", "next a few days", "next weekday",
                 "past  5  minutes", "next 9000 years", "last 9000 years", "this few weeks", "last few months next 2 days",
                 "next 3000 days", "THIS YEAR", "next a day"}, Large9>>
Plain9 == {w \o " " \o u : w \in {"this", "next", "last"}, u \in Long}
MyRefs(t) == IF Deep THEN Moments(AllDays \cup (IF t \in Plain9 THEN TwoYears ELSE {}), KeySecs)
             ELSE IF t \in Plain9 THEN Moments(AllDays, AllSecs) \cup Moments(TwoYears, {At(13, 5, 6)})
             ELSE IF t \in Large9 THEN Moments(LargeDays, {At(13, 5, 6)})
             ELSE IF t \in {w \o " " \o Gap(a) \o u : w \in {"this", "next", "last"}, a \in {"", "2", "half a"}, u \in Long}
             THEN Moments(AllDays, KeySecs)
             ELSE Moments({On(2019, 5, 15), On(2019, 1, 31), On(2020, 2, 29), On(2019, 12, 31)}, {At(13, 5, 6), At(23, 59, 59)})
MyParsers == {"rel"}
===============================================================================
