-------------------------------- MODULE MC_P04 --------------------------------
EXTENDS MCBase, Guarantees

Words4 == {"now", "today", "tonight", "last night", "last  night", "lastnight", "tomorrow", "tmr", "yesterday"}
MyTexts == <<Words4, {"see you " \o w \o ", ok" : w \in Words4}, {Capital(w) : w \in Words4}, {ToUpper(w) : w \in Words4}, {"tomorrow", "tmrw", "todayy", "yesterdays", "knowing", "now now"}>>
Core4 == Words4 \ {"last  night", "lastnight"}
MyRefs(t) == IF Deep THEN Moments(AllDays \cup TwoYears, AllSecs) \cup Moments(KeyDays, Minutes)
             ELSE IF t \in Core4 THEN Moments(AllDays, AllSecs) \cup Moments(TwoYears, {At(0, 59, 59), At(6, 0, 1), At(7, 10, 0)})
                                      \cup Moments({On(2019, 5, 15), On(2020, 3, 1)}, Minutes)
             ELSE Moments(AllDays, KeySecs) \cup Moments(SomeDays, AllSecs)
MyParsers == {"cdp"}
===============================================================================
