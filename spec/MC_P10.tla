-------------------------------- MODULE MC_P10 --------------------------------
EXTENDS MCBase, Guarantees

WordNums == {"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}
Amounts  == WordNums \cup {"0", "1", "2", "3", "4", "5", "9", "10", "26", "51", "52", "53", "100", "520", "1000", "007", "010", "08", "011", "0000000000012",
                           "thirteen", "few", "foo", "couple", "onetwo", "hundredfold"}
Weeks10 == {"week", "weeks"}
Large10 == {w \o " " \o n \o " weeks" : w \in {"last", "next"}, n \in LargeCounts}
MyTexts == <<Large10, {w \o " " \o a \o " " \o u : w \in {"last", "next"}, a \in Amounts, u \in Weeks10}, {w \o " " \o u : w \in {"last", "next", "this"}, u \in Weeks10}, {"this  week", "thisweek", "Last  2  Weeks", "next 2weeks", "nextweek", "this 2 weeks", "next week next week", "last weekend",
                 "last 9000000 weeks", "next 3000000000 weeks", "next 90000 weeks", "last two weeks and next four weeks", "past 2 weeks"}>>
MyRefs(t) == IF t \in Large10 THEN Moments(LargeDays, {At(13, 5, 6)}) ELSE Moments(IF t \in {"last week", "next week", "this week", "next two weeks", "last 52 weeks"} THEN AllDays \cup TwoYears ELSE AllDays, IF Deep THEN KeySecs ELSE SomeSecs)
MyParsers == {"wxp"}
===============================================================================
