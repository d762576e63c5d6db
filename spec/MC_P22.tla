-------------------------------- MODULE MC_P22 --------------------------------
EXTENDS MCBase, Guarantees

(* Impossible and unrepresentable expressions, alone and beside others.    *)
Big == {"2147483647", "2147483648", "4294967296", "99999999999", "18446744073709551616", "0", "00", "000000000000000001"}
BadDates == {"feb 30", "february 29 2019", "june 31", "may 0", "may 32", "2019-02-29", "2019-13-01", "2019-00-10", "2019-04-31", "0000-01-01", "1399-12-31",
             "2019-12-32", "feb 28 - 30", "feb thirtieth", "feb 5 to thirty first", "may 5 1399", "may 1 9 ad", "may 3 2000 bc", "april 5 542 be", "may 100 bc",
             "jan 1399", "dec 0000", "jan 0001 be", "nov 2000 bc", "feb 29, 1900", "may 5 0 ad", "may 31 - 32", "april 30 to 31", "jan 9999 be"}
BadTimes == {"25:00", "24:01", "12:60", "5:75pm", "13pm", "0:60", "99", "2560", "2401", "5:30:61", "5:30:99 am", "24:00:01", "13:00 am", "5 - 25", "5 to 12:60", "5:00 - 6:00:75",
             "2014-11-30t25:00", "2014-11-30t12:60", "2014-11-30t12:30:60", "2014-11-30t24:30", "24:00", "24", "23:59 - 24:00", "1pm - 24:00", "2014-11-30t24:00"}
BadAmounts == {w \o n \o u : w \in {"in "}, n \in {"2147483648", "99999999999", "99999999999999999999"}, u \in {" days", " minutes", " years"}}
              \cup {n \o u \o c : n \in {"2147483648", "99999999999"}, u \in {" days", " seconds", " months"}, c \in {" ago", " later"}}
              \cup {"in " \o n \o u : n \in {"65536", "4294901", "613566757", "2147483647"}, u \in {" days", " hours", " months", " years"}}
              \cup {"65536 years later", "613566757 weeks later", "715828 months ago", "571185677 hours later", "2147483647 weeks ago", "next 65536 years",
                    "last 613566757 weeks", "past 2147483647 days", "next 1172916851 hours"}
              \cup {"in 8500 years", "in 9000 years", "700 years ago", "8000 years later", "100000 days ago", "90000 weeks from now", "last 90000 weeks", "next 90000 weeks",
                    "next 3000000000 weeks", "in 8001 years", "last 700 years", "next 8500 years", "next few weeks", "this 5 minutes", "next foo weeks", "30000 months ago",
                    "1000000 hours ago", "in 1000000 hours", "1000000 seconds later", "in 100000 weeks"}
Broken == {"-", ":", "::", "12:", ":30", "2014-", "--", "may", "may -", "in", "in days", "ago", " ago", "5", "5 days", "last", "next", "this", "to", "at", "from", "half", "half an",
           "a", "()", "((", "(jan", "'", "new year", "\t", "\n", " \n\t ", ".", "...", "2014-11-30t", "2014-11-30t08:15+", "5p.m", "o'clock", "12 o", "sun.", "mon-", "\"", "\\", "a\\b", "{}", "[", "*", "^$", "?"}
Rim22 == {"9999-12-31t24:00", "9999-12-31t23:59", "1400-01-01", "1400-01-01 1am ist", "1400-01-01t00:00", "jan 1, 1400 at 5am jst", "dec 31, 9999 11pm est",
          "dec 31, 9999 10pm to 2am", "10pm to 2am dec 31, 9999", "dec 31, 9999 at 24:00", "dec 31, 9999 24:00 tomorrow", "dec 31, 9999 to dec 30, 9999",
          "jan 1, 1400 to dec 31, 9999", "dec 30, 9999 at 24:00", "dec 30 - 31, 9999", "5pm pst dec 31, 9999", "january 1400 at 0:00 cet", "dec 31, 9999 9pm - 24:00"}
Beyond22 == {a \o x \o b : a, b \in {"", "tomorrow", "5pm", "may 5", "12:", "in 5 days", "8"}, x \in {StrOf(<<k>>) : k \in {1, 11, 12, 13, 27, 127, 128, 169, 194, 226, 255}} \cup {Acute, HardBlank, FullColon, EnDash, WaveDash, Apostrophe}}
Ok22 == {"", "tomorrow", "5pm", "2014-11-30", "3 days ago", "last friday", "may 5"}
Bad  == Rim22 \cup BadDates \cup BadTimes \cup BadAmounts \cup Broken \cup Big
Mixed == {a \o s \o b : a \in Bad, s \in {" ", ", "}, b \in Ok22 \ {""}} \cup {b \o s \o a : a \in Bad, s \in {" ", ", "}, b \in Ok22 \ {""}}
MyTexts == <<Bad, Beyond22, (IF Deep THEN Mixed ELSE {a \o " " \o b : a \in Bad, b \in {"tomorrow", "5pm", "may 5"}} \cup {b \o ", " \o a : a \in Bad, b \in {"tomorrow", "3 days ago", "last friday"}})>>
MyRefs(t) == IF Deep THEN Moments(SomeDays, SomeSecs)
             ELSE IF t \in Bad THEN Moments({On(2019, 5, 15), On(2020, 2, 29), On(2019, 12, 31)}, {At(13, 5, 6)}) ELSE {<<On(2019, 5, 15), At(13, 5, 6)>>}
MyParsers == {"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp", "rel"}
\* which texts are answered
EmitTexts == stage = "printed" => PrintT(ToJson(<<Same(doc), ref>>))
===============================================================================
