-------------------------------- MODULE MC_P15 --------------------------------
EXTENDS RefineBase

(* All lists of results, ordered by index, on a short text.                *)
Ids == <<Result(0, 0, {"ENCasualDateParser"}, Dated(TRUE, 2019, 1, 1)),
         Ranged(Result(0, 0, {"ENTimeExpressionParser"}, Know(Dated(FALSE, 2019, 2, 2), "hour", 3)), Know(Dated(FALSE, 2019, 2, 2), "hour", 4)),
         Result(0, 0, {"ENDayOfTheWeekParser", "ENISOFormatParser"}, Imply(Dated(FALSE, 2019, 3, 3), "hour", 6)),
         Result(0, 0, {}, Dated(FALSE, 2019, 4, 4)),
         Result(0, 0, {"ENMonthNameParser"}, Know(Dated(TRUE, 2019, 5, 5), "tzoffset", -300))>>
Ordered(ss) == \A k \in 2..Len(ss) : ss[k - 1][1] <= ss[k][1]
Lists(n, ats, lens) == {ss \in [1..n -> ats \X lens] : Ordered(ss)}
Of(ss) == [k \in 1..Len(ss) |-> Place(Ids[k], ss[k][1], ss[k][2])]
Shapes == Lists(1, 0..3, 1..4) \cup Lists(2, 0..6, 1..6) \cup Lists(3, 0..5, 1..4)
          \cup (IF Deep THEN Lists(4, 0..5, 1..3) \cup Lists(5, 0..3, 1..3) ELSE Lists(4, 0..4, 1..3) \cup Lists(5, {0, 2, 3}, {1, 2}))
MyPlans == << {<<>>}, Shapes >>
MyMake(ss) == <<Spaces(20), Of(ss)>>
===============================================================================
