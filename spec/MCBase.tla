-------------------------------- MODULE MCBase ------------------------------
(***************************************************************************)
(* What the bounded explorations MC_* share: the behaviours found are      *)
(* printed, for the conformance driver to replay them on the real code.    *)
(***************************************************************************)
EXTENDS Chrono, Moments

CONSTANT Deep        \* explore more

Emit == stage = "found" => \A p \in Parsers : PrintT(ToJson(<<p, Same(doc), ref, EncAll(found[p])>>))

EmitAll == stage = "printed" => PrintT(ToJson(<<Same(doc), ref, [k \in 1..Len(log) |-> EncAll(log[k])], answer>>))

\* texts
A ** B == {a \o b : a \in A, b \in B}
Maybe(S) == {""} \cup S
DigitsOf(n) == IF n < 10 THEN Char(48 + n) ELSE Char(48 + (n \div 10)) \o Char(48 + (n % 10))
Num(n)  == IF n < 100 THEN DigitsOf(n) ELSE IF n < 1000 THEN DigitsOf(n \div 10) \o Char(48 + (n % 10))
           ELSE DigitsOf(n \div 100) \o Char(48 + ((n \div 10) % 10)) \o Char(48 + (n % 10))
Padded(n) == Char(48 + (n \div 10)) \o Char(48 + (n % 10))
Capital(s) == ToUpper(SubSeq(s, 1, 1)) \o SubSeq(s, 2, Len(s))

(* Amounts at which integers and floating point numbers of the usual sizes *)
(* round or wrap around.                                                   *)
LargeCounts == {"4096", "32767", "32768", "65535", "65536", "65537", "131072", "715828", "1048577", "2981000", "8388609", "16777215",
                "16777216", "16777217", "22000000", "33554433", "75542401", "134217729", "178956971", "306783379", "571185677",
                "613566757", "1073741824", "1199686684", "2147483646", "2147483647"}
LargeDays == {On(2019, 5, 15), On(2020, 2, 29), On(1400, 1, 1), On(9999, 12, 31)}
=============================================================================
