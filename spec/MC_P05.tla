-------------------------------- MODULE MC_P05 --------------------------------
EXTENDS MCBase, Guarantees

Words5 == {"morning", "noon", "afternoon", "evening", "night"}
MyTexts == <<{p \o w : p \in {"", "this ", "this  ", "this", "that ", "This ", "good "}, w \in Words5}, {ToUpper(w) : w \in Words5}, {"mornings", "forenoon", "fortnight", "midnight", "night night", "this morning and this evening"}>>
MyRefs(t) == IF Deep THEN Moments(AllDays \cup TwoYears, AllSecs) \cup Moments(KeyDays, Minutes)
             ELSE IF t \in Words5 THEN Moments(AllDays, AllSecs) \cup Moments(TwoYears, {At(0, 59, 59), At(22, 0, 1)})
                                       \cup Moments({On(2019, 5, 15), On(2020, 2, 29)}, Minutes)
             ELSE Moments(AllDays, KeySecs) \cup Moments(SomeDays, AllSecs)
MyParsers == {"ctp"}
===============================================================================
