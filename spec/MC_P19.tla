-------------------------------- MODULE MC_P19 --------------------------------
EXTENDS MCBase, Guarantees

(***************************************************************************)
(* Printing: a plan is made out to a result, which is then shown.          *)
(***************************************************************************)
VARIABLES plan, shown

Days19 == <<On(2019, 5, 15), On(2020, 2, 29), On(2019, 12, 31), On(2019, 1, 1), On(2019, 3, 1), On(2020, 3, 1), On(1402, 1, 2), On(9998, 12, 30),
            On(2019, 10, 31), On(2019, 11, 9), On(2000, 6, 7), On(2000, 4, 30), On(2001, 7, 31), On(2001, 9, 30), On(2002, 8, 8), On(1900, 2, 28)>>
Clocks19 == << <<0, 0, 0>>, <<0, 0, 1>>, <<0, 30, 0>>, <<9, 5, 7>>, <<12, 0, 0>>, <<23, 59, 59>>, <<24, 0, 0>>, <<17, 30, 0>> >>
Offsets == <<0, 60, -60, 345, -210, 720, -720, 840, 1, -1>>
TagSets == << {}, {"ExtractTimeZoneAbbreviation", "ENTimeExpressionParser"}, {"ENTimeExpressionParser", "ENMergeDateAndTimeRefiner"} >>
Ends19  == << <<On(2019, 12, 31), <<23, 30, 0>>, -300>>, <<On(2020, 2, 29), <<0, 0, 30>>, 60>>, <<On(2019, 5, 15), <<24, 0, 0>>, 0>>,
              <<On(2019, 5, 15), <<24, 0, 0>>, -30>>, <<On(2018, 1, 1), <<0, 0, 0>>, 1>> >>
Part(d, c, z, sure) ==
  LET p == ImplyDate(Blank, d)
      put(q, n, v) == IF sure THEN Know(q, n, v) ELSE Imply(q, n, v)
  IN put(put(put(put(p, "hour", c[1]), "min", c[2]), "sec", c[3]), "tzoffset", z)

Some19 == IF Deep THEN 1..10 ELSE {1, 4, 5, 7}
Few19  == IF Deep THEN 1..16 ELSE 1..4
\* every day of the year, shortly before and after midnight, with every zone's offset
ZoneOffsets == {Zones[k][2] : k \in 1..Len(Zones)}
\* offsets of every size (those beyond a day are nobody's zone), and every year
Vast == {1439, 1440, 1441, 10080, 32767, 32768, 43200, 65535, 65536, 65596, 100000, 131072, 525600, 1000000, 16777216, 30000000}
MyPlans == <<
  {<<4, n, c, z * s>> : n \in {On(2019, 5, 15), On(1400, 1, 1), On(9999, 12, 30), On(5000, 2, 28)}, c \in {1, 4, 6}, z \in Vast, s \in {1, -1}},
  {<<4, On(y, 1 + (y % 12), 1 + (y % 28)), 4, z>> : y \in {y \in 1401..9998 : Deep \/ y % 17 = 3}, z \in {0, -330}},
  {<<4, n, c, z>> : n \in {On(2019, 1, 1)}, c \in {1, 5, 6, 7}, z \in ZoneOffsets} \cup
    {<<4, n, c, z>> : n \in (IF Deep THEN On(2019, 1, 1)..On(2021, 1, 1) ELSE On(2019, 12, 25)..On(2021, 1, 1)), c \in {1, 6, 7}, z \in {-300, 330}},
  {<<1, t, d, c, z, s>> : t \in 1..3, d \in 1..16, c \in 1..8, z \in 1..10, s \in {0, 1}},
  {<<3, t, d, c, z>> : t \in 1..3, d \in 1..6, c \in 1..8, z \in 1..10},
  {<<2, t, d, c, z, e, s>> : t \in 1..3, d \in Few19, c \in 1..8, z \in Some19, e \in 1..5, s \in {0, 1}} >>
\* the ends of the calendar
Rim19 == <<On(1400, 1, 1), On(1400, 1, 2), On(9999, 12, 30), On(9999, 12, 31), On(2019, 1, 1), On(1400, 1, 1)>>
MyMake(n) ==
  IF n[1] = 4 THEN Result(3, 7, TagSets[2], Part(n[2], Clocks19[n[3]], n[4], TRUE)) ELSE
  IF n[1] = 3
  THEN LET c == IF n[3] = 4 /\ n[4] = 7 THEN 6 ELSE n[4]      \* there is no 24:00 on the last day
           a == Part(Rim19[n[3]], Clocks19[c], Offsets[n[5]], TRUE)
           r == Result(3, 7, TagSets[n[2]], IF n[3] = 5 THEN Part(Rim19[1], Clocks19[6], 0, TRUE) ELSE a)
       IN IF n[3] = 5 THEN Ranged(r, a) ELSE IF n[3] = 6 THEN Ranged(r, Part(Rim19[4], Clocks19[1], Offsets[n[5]], TRUE)) ELSE r
  ELSE
  LET start == Part(Days19[n[3]], Clocks19[n[4]], Offsets[n[5]], IF n[1] = 1 THEN n[6] = 1 ELSE TRUE)
      r == Result(3, 7, TagSets[n[2]], start)
  IN IF n[1] = 1 THEN r
     ELSE LET e == Ends19[n[6]] IN Ranged(r, Part(e[1], e[2], e[3], n[7] = 1))

NoTexts == <<{""}>>  NoParsers == {}  NoRefs(t) == {}

PrintInit == Init /\ (\E k \in 1..Len(MyPlans) : plan \in MyPlans[k]) /\ shown = <<>>
Show == /\ stage = "read" /\ stage' = "printed"
        /\ shown' = MyMake(plan) /\ answer' = IF Printable(shown') THEN Render(shown') ELSE ""
        /\ UNCHANGED <<doc, text, occ, ref, found, results, log, plan>>
PrintSpec == PrintInit /\ [][Show]_<<vars, plan, shown>>

\* ("": it can not be printed)
EmitPrint == stage = "printed" => PrintT(ToJson(<<Enc(shown), answer>>))
\* as long as it should be, with an end exactly if there is one
PrintForm == stage = "printed" /\ Printable(shown) => Len(answer) = (IF shown.ranged THEN 43 ELSE 20) /\ SubSeq(answer, 5, 5) = "-"
\* without a zone, what is printed is what is there
PrintPlain == stage = "printed" /\ "ExtractTimeZoneAbbreviation" \notin shown.tags /\ Val(shown.from, "hour") < 24 /\ Printable(shown) =>
  /\ SubSeq(answer, 1, 4) = Four(Val(shown.from, "year")) /\ SubSeq(answer, 10, 11) = Two(Val(shown.from, "mday"))
  /\ SubSeq(answer, 13, 20) = Two(Val(shown.from, "hour")) \o ":" \o Two(Val(shown.from, "min")) \o ":" \o Two(Val(shown.from, "sec"))
===============================================================================
