------------------------------ MODULE RefineBase ------------------------------
EXTENDS MCBase, Guarantees

(***************************************************************************)
(* One refinement step, done on lists of results of our choosing: a plan   *)
(* (a small tuple) is made out to a text and a list of results.            *)
(***************************************************************************)
CONSTANTS Plans,       \* what is explored: a sequence of sets
          Make(_)      \* plan -> <<text, results>>

VARIABLE plan
refineVars == <<vars, plan>>

RefineInit == Init /\ \E k \in 1..Len(Plans) : plan \in Plans[k]

Before(s) == CASE s = "disjoint" -> "sorted" [] s = "zoned" -> "disjoint"
               [] s = "timed" -> "zoned" [] s = "ranged" -> "timed"

Provide(s) ==
  /\ stage = "read" /\ stage' = Before(s)
  /\ LET x == Make(plan) IN doc' = x[1] /\ text' = x[1] /\ results' = x[2] /\ log' = <<x[2]>>
  /\ UNCHANGED <<occ, ref, found, answer, plan>>

OverlapSpec  == RefineInit /\ [][Provide("disjoint") \/ (RemoveOverlaps /\ UNCHANGED plan)]_refineVars
ZoneSpec     == RefineInit /\ [][Provide("zoned")    \/ (ExtractZones /\ UNCHANGED plan)]_refineVars
DateTimeSpec == RefineInit /\ [][Provide("timed")    \/ (MergeDateAndTime /\ UNCHANGED plan)]_refineVars
RangeSpec    == RefineInit /\ [][Provide("ranged")   \/ (MergeDateRange /\ UNCHANGED plan)]_refineVars

EmitStep == Len(log) = 2 => PrintT(ToJson(<<Same(text), EncAll(log[1]), EncAll(log[2])>>))

\* unused here
NoTexts == <<{""}>>  NoParsers == {}  NoRefs(t) == {}

\* components written as a sequence of certain (c = 1) or implied values, in CompOrder
Dated(c, y, m, d) == LET n == DayNum(y, m, d) IN IF c THEN KnowDate(Blank, n) ELSE ImplyDate(Blank, n)
Place(r, at, len) == [r EXCEPT !.at = at, !.len = len]
Spaces(n) == SubSeq("                                                            ", 1, n)
===============================================================================
