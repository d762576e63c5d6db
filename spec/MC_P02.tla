-------------------------------- MODULE MC_P02 --------------------------------
EXTENDS Api, Json

(***************************************************************************)
(* All histories of calls on results up to a length, then all kinds of     *)
(* starts and ends.                                                        *)
(***************************************************************************)
CONSTANT Deep

N(op) == 10 * (Len(hist) + 1) + op

Invoke(slots, tags) ==
  \/ \E k \in slots : \/ RNew(k, N(0), N(1)) \/ RReset(k) \/ RIndex(k, N(2)) \/ RText(k, N(3)) \/ REnd(k)
                      \/ RSet(k, "start", "year", N(4)) \/ RImply(k, "start", "month", N(5))
                      \/ RSet(k, "end", "mday", N(6)) \/ RImply(k, "end", "hour", N(7))
                      \/ \E n \in tags : RTag(k, n)
  \/ \E k, j \in slots : RTake("assign", k, j) \/ RTake("copy", k, j) \/ RTake("list", k, j)

Wide == Len(hist) < (IF Deep THEN 4 ELSE 3) /\ Invoke({0, 1}, {0, 9, 14})
WideSpec == ApiInit /\ [][Wide]_apiVars

\* copies, and what is done to either of the two afterwards
Shared ==
  /\ Len(hist) < (IF Deep THEN 7 ELSE 6)
  /\ CASE Len(hist) = 0 -> RNew(0, 3, 4) \/ RTag(0, 5)
       [] Len(hist) = 1 -> RSet(0, "end", "mday", 9) \/ RImply(0, "start", "hour", 8) \/ RTag(0, 11)
       [] Len(hist) = 2 -> REnd(0) \/ RSet(0, "start", "sec", 1)
       [] Len(hist) = 3 -> RTake("assign", 1, 0) \/ RTake("copy", 1, 0) \/ RTake("list", 1, 0) \/ (RTake("assign", 0, 0))
       [] OTHER -> \E k \in {0, 1} : \/ RIndex(k, N(2)) \/ RText(k, N(3)) \/ REnd(k) \/ RTag(k, 3) \/ RSet(k, "start", "hour", N(4)) \/ RImply(k, "start", "mday", N(5))
                                     \/ RSet(k, "end", "mday", N(6)) \/ RImply(k, "end", "tzoffset", N(7)) \/ RReset(k) \/ RTake("assign", 2, k)
SharedSpec == ApiInit /\ [][Shared]_apiVars

\* every tag, alone and beside another
Tags == Len(hist) < 3 /\ (IF Len(hist) < 2 THEN \E n \in 0..14 : RTag(0, n) ELSE RTake("copy", 1, 0))
TagsSpec == ApiInit /\ [][Tags]_apiVars

\* every component of either side
Sides == Len(hist) < 3 /\ (IF Len(hist) = 0 THEN REnd(1)
         ELSE IF Len(hist) = 1 THEN \E w \in {"start", "end"}, c \in Comps : RSet(1, w, c, 7) \/ RImply(1, w, c, 7)
         ELSE \E how \in {"assign", "copy", "list"}, k \in {0, 2} : RTake(how, k, 1))
SidesSpec == ApiInit /\ [][Sides]_apiVars

\* indices, lengths and values of every size
Sizes == {0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 70001}
Large == Sizes \cup {16777217, 1073741824, 2147483647}
Signed == Large \cup {-v : v \in Large} \cup {-2147483647 - 1}
Extreme ==
  CASE Len(hist) = 0 -> \/ \E v \in Large : RNew(0, v, 3) \/ RIndex(0, v)
                        \/ \E v \in Sizes : RNew(0, 5, v) \/ RText(0, v)
                        \/ \E w \in {"start", "end"}, c \in Comps, v \in Signed : RSet(0, w, c, v) \/ RImply(0, w, c, v)
    [] Len(hist) = 1 -> REnd(0)
    [] Len(hist) = 2 -> \E how \in {"assign", "copy", "list"} : RTake(how, 1, 0)
    [] OTHER -> FALSE
ExtremeSpec == ApiInit /\ [][Extreme]_apiVars

\* dates that exist, and others, on either side
Dates == << <<2019, 5, 15, 0, 0, 0>>, <<2020, 2, 29, 23, 59, 59>>, <<2019, 2, 29, 0, 0, 0>>, <<2019, 5, 15, 24, 0, 0>>, <<2019, 5, 15, 24, 0, 1>>, <<2019, 13, 1, 0, 0, 0>>,
            <<2019, 5, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>>, <<1399, 12, 31, 0, 0, 0>>, <<1400, 1, 1, 0, 0, 0>>, <<2019, 5, 15, 12, 60, 0>>, <<2019, 5, 15, 12, 0, 60>>,
            <<2019, 5, 15, -1, 0, 0>>, <<2019, 6, 31, 1, 1, 1>>, <<0, 0, 0, 5, 0, 0>>, <<9999, 12, 31, 23, 0, 0>>>>
Names == <<"year", "month", "mday", "hour", "min", "sec">>
RECURSIVE Filled(_, _, _, _)
Filled(p, d, sure, k) == IF k > 6 THEN p ELSE Filled(IF sure THEN Know(p, Names[k], d[k]) ELSE Imply(p, Names[k], d[k]), d, sure, k + 1)
Calls(w, d, sure) == [k \in 1..6 |-> <<IF sure THEN "set" ELSE "imply", 0, w, Names[k], d[k]>>]
Ends ==
  /\ hist = <<>>
  /\ \E a, b \in 1..Len(Dates), s, t \in BOOLEAN, ended \in BOOLEAN :
       /\ res' = [res EXCEPT ![0] = [@ EXCEPT !.from = Filled(Blank, Dates[a], s, 1), !.to = Filled(Blank, Dates[b], t, 1), !.ranged = ended]]
       /\ hist' = Calls("start", Dates[a], s) \o Calls("end", Dates[b], t) \o (IF ended THEN << <<"end", 0>> >> ELSE <<>>)
  /\ UNCHANGED parts
EndsSpec == ApiInit /\ [][Ends]_apiVars

EmitResults == hist # <<>> => PrintT(ToJson(hist) \o "\t" \o ToJson(SeeAllResults))
===============================================================================
