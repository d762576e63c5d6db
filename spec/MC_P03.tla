-------------------------------- MODULE MC_P03 --------------------------------
EXTENDS MCBase, Guarantees

(* Every parser on texts made of expressions of all kinds: alone, in       *)
(* upper case, next to letters, digits and punctuation, in sequence.       *)
Phrases ==
  {"this morning", "noon", "night", "today", "tomorrow", "last night", "last friday", "tue next week", "early sat",
   "in 5 minutes", "within a few days", "5 days ago", "2 hours 5 min before", "3 weeks later", "half an hour from now",
   "this month", "next 2 days", "this 5 days", "last 2 weeks", "next foo weeks", "this week", "2019-02-30",
   "2018-01-09t11:05:06.789-03:30", "2014-11-30", "may 5 - 7, 2019", "feb 30", "on mon, jan 2nd", "july 4",
   "january 2012", "sep.", "5:30 pm", "10 to 11am", "25:00", "8", "christmas eve", "black friday", "labor day"}
Edges == {"x", "7", "_", " ", "(", ")", ".", ",", "-", ":", "/", "'", "\t", "\n", "\r", "\f", StrOf(<<0>>), StrOf(<<11>>), StrOf(<<127>>), StrOf(<<255>>), Acute, HardBlank, EnDash, Apostrophe}
Seps  == {" ", ", ", "  ", "-", "", " and ", "; ", " at ", "\t"}
Few   == {"tomorrow", "mon", "5 days ago", "in 2 weeks", "feb 30", "june 5", "3pm", "2014-11-30", "xmas", "next week"}
Edged    == {a \o p \o b : a \in Maybe(Edges), p \in Phrases, b \in Maybe(Edges)}
Cased    == {ToUpper(p) : p \in Phrases} \cup {Capital(p) \o " x" : p \in Phrases}
Pairs    == {p \o s \o q : p \in Phrases, s \in Seps, q \in Phrases}
SomePairs == {p \o s \o q : p \in Few, s \in Seps, q \in Phrases}
Triples  == {p \o s \o q \o s \o r : p, q, r \in Few, s \in {" ", ", "}}
Repeats  == {p \o s \o p \o t \o p \o " " \o p : p \in Phrases, s, t \in {" ", ", "}}
MyTexts  == <<Cased, Repeats, {"", " ", "x"}>>
            \o (IF Deep THEN <<Edged, Pairs, Triples>>
                ELSE <<{a \o p : a \in Edges, p \in Phrases}, {p \o b : p \in Phrases, b \in Edges}, SomePairs>>)
MyRefs(t) == {<<On(2019, 5, 15), At(13, 5, 6)>>}
MyParsers == {"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp", "rel"}
===============================================================================
