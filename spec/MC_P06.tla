-------------------------------- MODULE MC_P06 --------------------------------
EXTENDS MCBase, Guarantees

Names == {"sunday", "sun", "monday", "mon", "tuesday", "tues", "tue", "wednesday", "wed", "thursday", "thurs", "thur",
          "thu", "friday", "fri", "saturday", "sat"}
Short == {"sun", "monday", "tues", "wed", "thur", "friday", "sat"}
Early == {"", "early ", "earlier ", "late ", "early"}
Pre   == {"", "this ", "last ", "next ", "Last "}
Post  == {"", " this", " last", " next", " this week", " last week", " next week"}
Full  == {e \o p \o n \o q : e \in Early, p \in Pre, n \in Names, q \in Post}
Part  == {e \o p \o n \o q : e \in Early, p \in Pre, n \in Short, q \in Post}
         \cup {p \o n \o q : p \in Pre, n \in Names, q \in Post}
MyTexts == <<(IF Deep THEN Full ELSE Part), {"last  friday", "friday  next   week", "lastfriday", "fridays", "wednes", "satur", "next thurs. ok",
                 "on friday, last week", "monday tuesday", "last mon next", "MONDAY", "tuesd"}>>
Plain6 == {p \o n : p \in {"", "last ", "next "}, n \in Short}
MyRefs(t) == IF Deep THEN Moments(AllDays \cup (IF t \in Plain6 THEN TwoYears ELSE {}), {At(13, 5, 6)})
             ELSE IF t \in Plain6 THEN Moments(TwoYears \cup FarDays \cup Centuries, {At(13, 5, 6)})
             ELSE IF t \in {p \o n \o q : p \in Pre, n \in Short, q \in Post}
             THEN Moments(PlainWeek \cup YearWeek \cup LeapWeek \cup MonthEnds, {At(13, 5, 6)})
             ELSE Moments(PlainWeek \cup SomeDays, {At(13, 5, 6)})
MyParsers == {"dow"}
===============================================================================
