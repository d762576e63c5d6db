-------------------------------- MODULE MC_P14 --------------------------------
EXTENDS MCBase, Guarantees

Days14 == {"independence", "president's", "new year's", "new year's eve", "columbus", "mlk", "martin luther king junior", "martin luther king jr",
           "martin luther king jnr", "thanksgiving", "memorial", "labor", "veterans", "veteran's", "christmas", "christmas eve", "black friday"}
MyTexts == <<{d \o s : d \in Days14, s \in {"", " day", "  Day", "day", " x"}}, {"Happy " \o ToUpper(d) : d \in Days14}, {"new  year's", "christmas  eve", "black  friday", "blackfriday", "newyear's", "presidents", "president s day", "martin king",
                 "halloween", "new year", "labor day and christmas day", "laborday", "xmas", "thanksgivings", "martin  luther king jr", "christmaseve", "new year'seve"}>>
Years14 == (IF Deep THEN 1402..1500 \cup 1890..2110 ELSE 1920..2060) \cup {1400, 1402, 1752, 1899, 1900, 2000, 2096, 2100, 9996, 9999}
MyRefs(t) == IF Deep THEN Moments({On(y, 3, 1) : y \in Years14 \cup 1700..2300} \cup TwoYears, {At(13, 5, 6)})
             ELSE IF t \in Days14 THEN Moments({On(y, 2, 28) : y \in Years14} \cup {On(2019, 1, 1), On(2019, 12, 31)}, {At(13, 5, 6)})
             ELSE IF t \in {d \o " day" : d \in Days14} THEN Moments({On(2019, m, 15) : m \in 1..12} \cup {On(2020, 12, 31)}, SomeSecs)
             ELSE Moments({On(2019, 6, 5), On(2020, 12, 31)}, {At(13, 5, 6)})
MyParsers == {"hol"}
===============================================================================
