-------------------------------- MODULE MC_P07 --------------------------------
EXTENDS MCBase, Guarantees

WordNums == {"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}
Special  == {"a", "an", "a few", "an few", "half", "half a", "half an"}
Numbers  == {"0", "1", "2", "5", "12", "13", "18", "24", "25", "30", "31", "48", "60", "61", "90", "100", "365", "366",
             "1000", "1440", "86400", "007", "010", "08", "0000000000012"}
UnitWords == {"sec", "second", "secs", "seconds", "min", "minute", "mins", "minutes", "hr", "hour", "hrs", "hours",
              "day", "days", "wk", "week", "wks", "weeks", "month", "months", "yr", "year", "yrs", "years"}
Long == {"seconds", "minutes", "hours", "days", "weeks", "months", "years"}
Large7 == {"in " \o n \o " " \o u : n \in LargeCounts, u \in Long}
MyTexts == <<{w \o a \o " " \o u : w \in {"in ", "within "}, a \in WordNums \cup Special \cup Numbers, u \in UnitWords}, {"In 5  Minutes", "within\t2 hours", "in 5minutes", "in few days", "in thirteen days", "in a few  weeks",
                 "in 5 mi", "in half  an  hour", "in 3000000000 days", "in 99999999999 years", "in 9000 years", "in 100000 days",
                 "in 5 days and within 2 weeks", "begin 5 days", "in one hundred days", "in 5 hs", "in 2 minut"}, Large7>>
Plain7 == {"in " \o a \o " " \o u : a \in {"1", "half a", "30"}, u \in Long}
MyRefs(t) == IF Deep THEN Moments(AllDays, KeySecs) \cup (IF t \in Plain7 THEN Moments(TwoYears, {0, At(23, 59, 59)}) ELSE {})
             ELSE IF t \in Plain7 THEN Moments(AllDays, AllSecs) \cup Moments(TwoYears, {At(23, 59, 59)})
             ELSE IF t \in Large7 THEN Moments(LargeDays, {At(13, 5, 6)})
             ELSE IF \E a \in {"1", "2", "five", "a", "half a", "a few", "30", "24", "90"}, u \in Long : t = "in " \o a \o " " \o u
             THEN Moments(AllDays, KeySecs)
             ELSE Moments(SomeDays, SomeSecs)
MyParsers == {"dfp"}
===============================================================================
