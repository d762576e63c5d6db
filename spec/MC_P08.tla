-------------------------------- MODULE MC_P08 --------------------------------
EXTENDS MCBase, Guarantees

WordNums == {"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"}
Special  == {"a", "an", "a few", "few", "half", "half a", "half an"}
Numbers  == {"0", "1", "2", "5", "12", "13", "24", "30", "31", "48", "60", "90", "100", "365", "1000", "1440", "86400", "010", "08", "0000000000012"}
UnitWords == {"sec", "second", "seconds", "min", "mins", "minute", "minutes", "hour", "hours", "day", "days", "week", "weeks",
              "month", "months", "year", "years", "hr", "secs", "yr"}
Long    == {"seconds", "minutes", "hours", "days", "weeks", "months", "years"}
Closing == {"ago", "before", "earlier", "later", "after", "from now", "henceforth", "forward", "out"}
Single == {a \o " " \o u \o " " \o c : a \in WordNums \cup Special \cup Numbers, u \in UnitWords, c \in {"ago", "later"}}
Closed == {p \o a \o " " \o u \o " " \o c : p \in {"", "within ", "about "}, a \in {"3", "a few", "half an"},
                                            u \in Long, c \in Closing}
Double == {a \o " " \o u \o s \o b \o " " \o v \o " " \o c :
             a \in {"2", "a", "half a", "40"}, u, v \in Long, s \in {" ", "  "}, b \in {"three", "half an", "50"}, c \in {"ago", "later"}}
Triple == {"1 " \o u \o " 25 " \o v \o " 61 " \o w \o " " \o c : u, v, w \in Long, c \in {"ago", "from now"}}
Odd == {"5daysago", "5days ago", "5 days\tago", "Five Minutes Ago", "2 years, 3 days ago", "3000000000 days ago", "9000 years ago",
        "700 years ago", "9000 years later", "1 month 1 month ago", "half a year half a month later", "ago", "5 ago", "days ago",
        "12 hours from  now", "5 minutes agone", "1 year 30 days 6 hours 5 minutes 4 seconds later",
        "1 year 30 days 6 hours 5 minutes 4 seconds ago", "5 days ago and 3 weeks later", "2 weeks outside"}
Large8 == {n \o " " \o u \o " " \o c : n \in LargeCounts, u \in Long, c \in {"ago", "later"}}
          \cup {n \o " " \o u \o " " \o b \o " later" : n \in {"2147483647", "16777217"}, u \in {"seconds", "minutes"},
                b \in {"half a second", "half a minute", "2147483647 minutes", "2 seconds", "12 days"}}
          \cup {n \o " weeks " \o b \o " ago" : n \in {"2147483647", "449658", "613566757"}, b \in {"2 weeks", "2 days", "half a week"}}
MyTexts == <<Large8, Single, Closed, Triple, Odd, (IF Deep THEN Double ELSE {t \in Double : SubSeq(t, 1, 1) \in {"2", "h"}})>>
Plain8 == {a \o " " \o u \o " " \o c : a \in {"1"}, u \in Long, c \in {"ago", "later"}}
MyRefs(t) == IF Deep THEN Moments(KeyDays \cup Centuries \cup (IF t \in Plain8 THEN TwoYears ELSE {}), SomeSecs)
             ELSE IF t \in Plain8 THEN Moments(AllDays, AllSecs) \cup Moments(TwoYears, {At(0, 0, 30)})
             ELSE IF t \in Large8 THEN Moments(LargeDays, {At(13, 5, 6)})
             ELSE IF t \in Closed \/ t \in Triple THEN Moments(SomeDays \cup MonthEnds, {At(13, 5, 6), At(0, 0, 30)})
             ELSE IF t \in {a \o " " \o u \o " " \o c : a \in {"1", "2", "a few", "half a", "13"}, u \in Long, c \in {"ago", "later"}}
             THEN Moments(AllDays, SomeSecs)
             ELSE Moments({On(2019, 5, 15), On(2019, 1, 31), On(2020, 2, 29)}, {At(13, 5, 6), At(23, 59, 59)})
MyParsers == {"tap", "tlp"}
===============================================================================
