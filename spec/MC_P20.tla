-------------------------------- MODULE MC_P20 --------------------------------
EXTENDS MCBase, Guarantees

(* Texts composed of expressions of several kinds.                         *)
Dates20 == {"tomorrow", "last friday", "may 5", "may 5 - 7", "2014-11-30", "christmas", "3 days ago", "in 2 weeks", "next 2 weeks", "june 2012", "mon",
            "jan 2nd, 2020", "last night", "sept", "2 days from now", "early tuesday"}
Times20 == {"5pm", "at 17:30", "noon", "5:30 - 7pm", "10pm to 2am", "this evening", "in 5 minutes", "2 hours ago", "8:15 est", "9 am pst", "midnight", "5pm-1am"}
Both    == {"2018-01-09t11:05:06-03:30", "now", "a minute ago"}
None20  == {"9999-12-31t24:00", "jan 1, 1400 1am ist", "dec 31, 9999 11pm est", "dec 31, 9999 10pm to 2am", "dec 31, 9999 at 24:00", "hello", "the", "x1", "feb 30", "25:00"}
Phrases20 == Dates20 \cup Times20 \cup Both \cup None20
Seps20  == {" ", " to ", " and ", " - ", ", ", " at ", " or ", "; then ", " through "}
Core    == {"tomorrow", "mon", "may 5", "5pm", "10pm to 2am", "noon", "in 2 weeks", "2 hours ago", "hello", "next friday"}
Two20   == {p \o s \o q : p, q \in Phrases20, s \in Seps20}
Zoned20 == {p \o s \o t \o z : p \in {"", "tomorrow ", "mon ", "may 5 to ", "in 2 weeks, "}, s \in {"", "at "}, t \in {"5pm", "10pm to 2am", "8:15", "noon", "0:30"},
              z \in {" est", " PST", "(ist)", " xyz", " utc.", " est tomorrow"}}
Three20 == {p \o s \o q \o t \o r : p, q, r \in Core, s, t \in {" ", " to ", " and "}}
Beyond20 == {p \o s \o q \o z : p, q \in Core, s \in {EnDash, " " \o EnDash \o " ", WaveDash, HardBlank, " " \o Apostrophe, Acute}, z \in {"", Acute}}
MyTexts == <<Beyond20, Phrases20, Zoned20, {"", " "}, {ToUpper(p) : p \in Phrases20}>>
           \o (IF Deep THEN <<Two20, Three20>>
               ELSE <<{p \o s \o q : p, q \in Phrases20, s \in {" ", " to ", " and ", ", "}}, {p \o s \o q : p, q \in Core, s \in Seps20},
                      {p \o s \o q \o t \o r : p, q, r \in {"tomorrow", "mon", "5pm", "may 5", "10pm to 2am"}, s, t \in {" ", " to "}}>>)
MyRefs(t) == IF Deep THEN Moments({On(2019, 5, 15), On(2020, 2, 29), On(2019, 12, 31)}, {At(13, 5, 6), At(0, 10, 0)})
             ELSE IF t \in Phrases20 \cup Zoned20 THEN Moments(SomeDays, SomeSecs) ELSE {<<On(2019, 5, 15), At(13, 5, 6)>>}
MyParsers == {"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp"}
\* what the driver needs: what the parsers found, and the answer
EmitRun == stage = "printed" => PrintT(ToJson(<<Same(doc), ref, EncAll(log[1]), answer>>))
===============================================================================
