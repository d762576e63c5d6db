-------------------------------- MODULE MC_P17 --------------------------------
EXTENDS RefineBase

(* Two or three dates with all kinds of words between them.                *)
Day17 == <<Result(0, 0, {"ENCasualDateParser"}, Dated(TRUE, 2019, 5, 15)),
           Result(0, 0, {"ENMonthNameMiddleEndianParser"}, Know(Know(Dated(TRUE, 2019, 5, 15), "hour", 9), "min", 30)),
           Result(0, 0, {"ENISOFormatParser"}, Know(Dated(TRUE, 2018, 12, 31), "tzoffset", 60)),
           Result(0, 0, {"ENDayOfTheWeekParser"}, Imply(Dated(FALSE, 2019, 5, 19), "hour", 6)),
           Ranged(Result(0, 0, {"ENTimeExpressionParser"}, Know(Dated(FALSE, 2019, 5, 15), "hour", 9)), Know(Dated(FALSE, 2019, 5, 15), "hour", 10)),
           Result(0, 0, {"ENTimeLaterParser"}, Know(Know(Dated(FALSE, 2019, 5, 15), "hour", 9), "sec", 1))>>
Words17 == <<" to ", " and ", " through ", "-", " - ", " ", ", ", " or ", "", " until ", " today ", " then ", " thru ", ", and then ", " up to, say, ",
            "to", " t o ", " t-", " an d ", " land ", " throug h">>
\* far apart, the connective at the beginning, in the middle, at the end or nowhere
Fill17(n) == SubSeq("  xq vyx  xqv   yx q   vyxqvyx qvyx     qvy xqvyx qv yx  qvyx qvyxqv yxqvyxqv  yxq   vyxqvyxq  vyx qv ", 1, n)
Far17 ==
  <<Fill17(14), Fill17(15), Fill17(16), Fill17(17), Fill17(31), Fill17(33), Fill17(64), Fill17(100), Fill17(100) \o Fill17(100) \o Fill17(100)>>
  \o [k \in 1..4 |-> " to " \o Fill17(<<12, 13, 29, 100>>[k])]
  \o [k \in 1..5 |-> Fill17(<<9, 11, 13, 28, 100>>[k]) \o <<" and", "-", " to ", " through ", "-">>[k]]
  \o [k \in 1..4 |-> Fill17(<<6, 7, 25, 100>>[k]) \o <<" - ", " until ", "-", " through ">>[k] \o Fill17(<<7, 8, 40, 100>>[k])]
  \o <<Fill17(100) \o Fill17(100) \o Fill17(80) \o " to ", " - " \o Fill17(100) \o Fill17(100) \o Fill17(80)>>
Wide17 == Words17 \o Far17
Wide   == (Len(Words17) + 1)..Len(Wide17)
Between == 1..Len(Words17)
Some17  == {1, 4, 8, 2, 9}       \* to - or and (nothing)
Leads   == <<"", "from ", "to and - ">>
Pair17(i, j, w, lead) == <<lead \o "abc" \o w \o "uvwx", <<Place(Day17[i], Len(lead), 3), Place(Day17[j], Len(lead) + 3 + Len(w), 4)>> >>
Triple17(i, j, k, w, v) ==
  <<"abc" \o w \o "uvwx" \o v \o "fg to",
    <<Place(Day17[i], 0, 3), Place(Day17[j], 3 + Len(w), 4), Place(Day17[k], 7 + Len(w) + Len(v), 2)>> >>
Quad17(i, j, k, m, u, v, w) ==
  <<"abc" \o u \o "uvwx" \o v \o "fg" \o w \o "z",
    <<Place(Day17[i], 0, 3), Place(Day17[j], 3 + Len(u), 4), Place(Day17[k], 7 + Len(u) + Len(v), 2),
      Place(Day17[m], 9 + Len(u) + Len(v) + Len(w), 1)>> >>
D6 == 1..6
Q6 == IF Deep THEN {1, 3, 4, 5} ELSE {1, 3, 5}
MyPlans == <<
  {<<0>>},
  {<<1, i>> : i \in D6},
  {<<2, i, j, w, n>> : i, j \in D6, w \in Between, n \in 1..3},
  {<<2, i, j, w, 1>> : i, j \in D6, w \in Wide},
  {<<3, i, j, k, w, v>> : i, j, k \in {1, 4}, w \in Wide, v \in {1, 8} \cup Wide},
  {<<3, i, j, k, w, v>> : i, j, k \in D6, w, v \in IF Deep THEN Between ELSE Some17},
  {<<4, i, j, k, m, u, v, w>> : i, j, k, m \in Q6, u, v, w \in {1, 8, 4}},
  {<<5, i, j>> : i, j \in D6} >>
W(k) == Wide17[k]
MyMake(n) ==
  CASE n[1] = 0 -> <<"to", <<>> >>
    [] n[1] = 1 -> <<"x to abc to", <<Place(Day17[n[2]], 5, 3)>> >>
    [] n[1] = 2 -> Pair17(n[2], n[3], W(n[4]), Leads[n[5]])
    [] n[1] = 3 -> Triple17(n[2], n[3], n[4], W(n[5]), W(n[6]))
    [] n[1] = 4 -> Quad17(n[2], n[3], n[4], n[5], W(n[6]), W(n[7]), W(n[8]))
    [] n[1] = 5 -> <<"abc to uvwx and more", <<Place(Day17[n[2]], 7, 4), Place(Day17[n[3]], 11, 4)>> >>
===============================================================================
