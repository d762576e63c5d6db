-------------------------------- MODULE MC_Far --------------------------------
EXTENDS MCBase, Far

(* Far into a text: copies of a unit before an expression.                 *)
CONSTANT Deep
Silent == {"zq ", "- ", Acute \o " "}                  \* nothing is found in these
Units  == Silent \cup {"noon; ", "x, 5 days ago. ", "last friday, ", "feb 30! ", "5pm; "}
Few   == {"tomorrow", "mon", "5 days ago", "in 2 weeks", "feb 30", "june 5", "3pm", "2014-11-30", "christmas", "next week", ""}
More  == {"last friday at noon", "may 5 - 7, 2019", "2 hours 5 min before", "next foo weeks", "10 to 11am", "black friday, january 2012", "early sat"}

VARIABLE unit
FarSpec == Init /\ unit \in Units /\ [][(ScanText \/ Refer) /\ UNCHANGED unit]_<<vars, unit>>
MyTexts == IF Deep THEN <<Few, More>> ELSE <<Few>>
MyRefs(t) == {<<On(2019, 5, 15), At(13, 5, 6)>>}
MyParsers == {"ctp", "dfp", "dow", "cdp", "mme", "tlp", "mnp", "tap", "txp", "iso", "hol", "wxp", "rel"}

FarLaw == stage = "found" => \A p \in Parsers : StretchLaw(Same(unit), Same(doc), p, ref, 5)

SpansOf(rs) == [k \in 1..Len(rs) |-> <<rs[k].at, rs[k].len>>]
EmitFar ==
  stage = "found" => \A p \in Parsers :
    LET S == SpansOf(Parse(p, Occurrences(p, ToLower(Copies(Same(unit), 3) \o Same(doc))), ref))
        d == Len(Same(unit))
        n == IF Same(unit) \in Silent THEN 66000 \div d ELSE 300
    IN Alike(S, d) => PrintT(ToJson(<<p, Same(unit), n, Same(doc), ref, Stretched(S, d, n)>>))
===============================================================================
