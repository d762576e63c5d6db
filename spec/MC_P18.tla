-------------------------------- MODULE MC_P18 --------------------------------
EXTENDS RefineBase

(* Every zone abbreviation, and other words, behind results of all kinds.  *)
T5 == Know(Know(Dated(FALSE, 2019, 5, 15), "hour", 17), "min", 0)
Clocks18 == <<Result(0, 3, {"ENTimeExpressionParser"}, T5),
              Ranged(Result(0, 3, {"ENTimeExpressionParser"}, T5), Know(T5, "hour", 18)),
              Result(0, 3, {"ENTimeExpressionParser"}, Know(T5, "tzoffset", 60)),
              Ranged(Result(0, 3, {"ENTimeExpressionParser"}, Know(T5, "tzoffset", 60)), Know(T5, "hour", 18)),
              Ranged(Result(0, 3, {"ENTimeExpressionParser"}, T5), Know(Know(T5, "hour", 18), "tzoffset", -90)),
              Result(0, 3, {"ENISOFormatParser"}, T5),
              Result(0, 3, {"ENTimeExpressionParser", "ENCasualDateParser"}, Imply(T5, "tzoffset", 15))>>
ZoneNames == {Zones[k][1] : k \in 1..Len(Zones)}
SomeZones == {"EST", "PST", "CHADT", "WT", "NPT", "CHST", "GMT", "HAT"}
NoZones   == {"A", "Z", "AB", "XYZ", "ZONE", "ESTX", "EASTER", "TIME", "PM", "ES", "E S T", "E5T", "EST5", "5", "THE", "", "UTCC", "CHSTX", Acute \o "ST", "EST" \o Acute, "E" \o HardBlank \o "T", Acute}
Title(z) == IF z = "" THEN z ELSE Capital(ToLower(z))
Forms(z)  == {" " \o z, " " \o ToLower(z)}
MoreForms(z) == {z, ToLower(z), "(" \o z \o ")", " (" \o ToLower(z) \o ")", "  " \o z, "\t" \o z, " " \o z \o " ", " " \o z \o ".", " " \o z \o ")",
                 " (" \o z, " " \o z \o " at", ", " \o z, " ((" \o z \o "))", " " \o Title(z), " " \o z \o ", ok", " in " \o z, "-" \o z}
AllTails  == UNION {Forms(z) : z \in ZoneNames}
SomeTails == UNION {Forms(z) \cup MoreForms(z) : z \in SomeZones \cup NoZones}
TwoTails  == UNION {Forms(z) : z \in SomeZones \cup NoZones}
AllForms == UNION {MoreForms(z) : z \in ZoneNames}
MyPlans == <<
  {<<1, 1, 1, t>> : t \in AllForms},
  {<<1, k, k, t>> : t \in AllTails, k \in 1..7},
  {<<1, k, k, t>> : t \in SomeTails, k \in 1..7},
  {<<2, k, k, t>> : t \in TwoTails, k \in 1..7},
  {<<3, k, j, t>> : t \in TwoTails, k, j \in 1..7},
  {<<4, k, j, "">> : k, j \in 1..7},
  {<<5, 1, 1, "">>} >>
MyMake(n) ==
  CASE n[1] = 1 -> <<"5pm" \o n[4], <<Clocks18[n[2]]>> >>
    [] n[1] = 2 -> <<"at 5pm" \o n[4], <<Place(Clocks18[n[2]], 2, 4)>> >>
    [] n[1] = 3 -> <<"5pm est and 6pm" \o n[4], <<Clocks18[n[2]], Place(Clocks18[n[3]], 12, 3)>> >>
    [] n[1] = 4 -> <<"noon est", <<Place(Clocks18[n[2]], 0, 4), Place(Clocks18[n[3]], 4, 4)>> >>
    [] n[1] = 5 -> <<"est", <<>> >>
===============================================================================
