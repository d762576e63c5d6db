-------------------------------- MODULE MC_P12 --------------------------------
EXTENDS MCBase, Guarantees

MonthWords == {"jan", "jan.", "january", "feb", "feb.", "february", "mar", "mar.", "march", "apr", "apr.", "april", "may", "may.",
               "jun", "jun.", "june", "jul", "jul.", "july", "aug", "aug.", "august", "sep", "sep.", "sept", "sept.", "september",
               "oct", "oct.", "october", "nov", "nov.", "november", "dec", "dec.", "december"}
Long    == {"january", "feb", "march", "apr.", "may", "june", "july", "august", "sept", "october", "november", "dec"}
Ordinal == {"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth", "eleventh", "twelfth",
            "thirteenth", "fourteenth", "fifteenth", "sixteenth", "seventeenth", "eighteenth", "nineteenth", "twentieth",
            "twenty first", "twenty-second", "twenty third", "twenty-fourth", "twenty fifth", "twenty sixth", "twenty-seventh",
            "twenty eighth", "twenty-ninth", "thirtieth", "thirty first", "thirty-first"}
DayNums == {Num(n) : n \in 0..32} \cup {"01", "08", "09", "010"}
DaySuff == {"1st", "2nd", "3rd", "4th", "11th", "22nd", "30th", "31st"}
YearForms == {"", " 2012", ", 2012", ",2019", " 1889", " 2555 be", " 2555be", " 1995 ad", " 79 ad", " 15 ad", " 100 bc", "-2012", "/2012", ", 12", " 0 ad", ", 0099", " 0012", " 012 ad", " 0543 be"}
Day1 == {m \o " " \o d : m \in Long, d \in DayNums \cup Ordinal \cup DaySuff}
Spelled == {m \o s \o "5" \o y : m \in MonthWords, s \in {" ", "-", "/", ", ", "", " , "}, y \in {"", " 2012"}}
Years12 == {m \o " " \o d \o y : m \in {"feb", "may"}, d \in {"1", "29", "30th", "third"}, y \in YearForms}
Ranges  == {m \o " " \o d \o c \o e \o y : m \in {"february", "aug."}, d \in {"5", "28th", "third"},
              c \in {"-", " - ", " to ", " to", "to "}, e \in {"7", "1", "29", "30th", "tenth", "twenty-ninth", "31"}, y \in {"", " 2012", ", 2019"}}
Days12  == {w \o s \o "july 4" : w \in {"sun", "monday", "tues", "wed", "on thursday", "on fri", "onsat", "sun"}, s \in {" ", ", ", ",", ""}}
Odd12   == {"may 5:30", "may 5 pm", "may 5 am", "may 5th at 3pm", "maybe 5", "mayday", "july 4th july 5", "Feb 29", "FEBRUARY 29, 2020", "feb 29 2019",
            "may 5 2019 be", "march 3 to", "march 3-", "june 31", "june 5 - 7 2012 ad", "mon jan 1 - 3", "sept 5 thursday", "dec 32", "oct 10 10 ad"}
Alone   == {b \o m \o y : b \in {"", "in ", "(", "a ", "2 "}, m \in MonthWords, y \in {"", " ", ".", ", 2012", " 2012", "2012", "-2012", " 2012 be", " 79", " 2012x", ")", " x"}}
WithDay == Day1 \cup Spelled \cup Years12 \cup Ranges \cup Days12 \cup Odd12
MyTexts == <<WithDay, Alone>>
\* reference days around half a year from the date, and around 29 February
HalfYear == (On(2019, 7, 1) - 4)..(On(2019, 7, 1) + 4) \cup (On(2019, 11, 30)..On(2019, 12, 4))
Refs12 == SomeDays \cup LeapWeek \cup MonthEnds \cup Centuries
\* seen from half a year away, the nearest of the years changes; no year, and no day, or the day itself
EveryDate == {m \o " " \o Num(d) : m \in Long, d \in 1..31}
AtHalf(t) == LET m == CHOOSE k \in 1..12 : \E l \in Long : StartsWith(t, l) /\ Lookup(Months, l) = k
                 d == CHOOSE k \in 1..31 : \E l \in Long : t = l \o " " \o Num(k)
             IN IF t \in Long THEN UNION {(On(y, m, 1) + 180)..(On(y, m, 1) + 186) : y \in {2018, 2019, 2020}}
                ELSE IF d <= DaysIn(2020, m) THEN UNION {(On(y, m, d) + 181)..(On(y, m, d) + 185) : y \in IF Deep THEN {2018, 2019, 2020, 2099, 1999} ELSE {2019, 2020}}
                ELSE {}
Refs0(t) == IF Deep THEN Moments(Refs12 \cup HalfYear \cup BareWeek, {At(13, 5, 6)})
             ELSE IF t \in {m \o " " \o d : m \in Long, d \in {"1", "5", "15", "28", "29", "30", "31"}} \cup Long
             THEN Moments(Refs12 \cup HalfYear, {At(13, 5, 6)})
             ELSE Moments({On(2019, 5, 15), On(2020, 2, 29), On(2019, 12, 31)}, {At(13, 5, 6)})
MyRefs(t) == IF t \in Long \cup EveryDate THEN Moments(AtHalf(t), {At(13, 5, 6)}) \cup Refs0(t) ELSE Refs0(t)
MyParsers == {"mme", "mnp"}
===============================================================================
