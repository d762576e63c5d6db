-------------------------------- MODULE MC_P01 --------------------------------
EXTENDS Api, Json

(***************************************************************************)
(* All histories of calls on components up to a length, then all border    *)
(* values of possible dates.                                               *)
(***************************************************************************)
CONSTANT Deep

\* values tell the calls apart
V(c) == 10 * (Len(hist) + 1) + Cardinality(Comps) + (CHOOSE k \in 1..8 : Order[k] = c)

Invoke(comps, slots) ==
  \/ \E k \in slots, c \in comps : CSet(k, c, V(c)) \/ CImply(k, c, V(c))
  \/ \E k, j \in slots : CAssign(k, j) \/ (j # k /\ CCopy(k, j))
  \/ \E k \in slots : CReset(k) \/ CUnknown(k) \/ CAnchored(k, 85, 20 * (Len(hist) + 1))
  \/ \E k \in slots, m \in {0, 85, 255} : CFrom(k, m, 30 * (Len(hist) + 1))

Wide == Len(hist) < (IF Deep THEN 4 ELSE 3) /\ Invoke(Comps, {0, 1})
WideSpec == ApiInit /\ [][Wide]_apiVars
Narrow == Len(hist) < (IF Deep THEN 5 ELSE 4) /\ Invoke({"mday", "tzoffset"}, IF Deep THEN {0, 1} ELSE {0, 2})
NarrowSpec == ApiInit /\ [][Narrow]_apiVars

Years  == <<0, 1, -1, 99, 1399, 1400, 1401, 1900, 2000, 2019, 2020, 9999, 10000>>
Months == <<-1, 0, 1, 2, 3, 4, 6, 9, 11, 12, 13>>
Mdays  == <<-1, 0, 1, 28, 29, 30, 31, 32>>
Hours  == <<-1, 0, 12, 23, 24, 25>>
Sixty  == <<-1, 0, 1, 59, 60>>
\* set or imply, as the bits of w say
PutBit(p, w, b, c, v) == IF (w \div b) % 2 = 1 THEN Know(p, c, v) ELSE Imply(p, c, v)
OpBit(w, b, c, v)     == <<IF (w \div b) % 2 = 1 THEN "set" ELSE "imply", 0, c, v>>
Value(y, m, d, h, mi, s, w) ==
  /\ parts' = [parts EXCEPT ![0] = PutBit(PutBit(PutBit(PutBit(PutBit(PutBit(Blank, w, 1, "year", y), w, 2, "month", m), w, 4, "mday", d),
                                          w, 8, "hour", h), w, 16, "min", mi), w, 32, "sec", s)]
  /\ hist' = <<OpBit(w, 1, "year", y), OpBit(w, 2, "month", m), OpBit(w, 4, "mday", d), OpBit(w, 8, "hour", h), OpBit(w, 16, "min", mi), OpBit(w, 32, "sec", s)>>
  /\ UNCHANGED res
Mix(a, b, c, d) == (a * 7 + b * 13 + c * 29 + d * 3) % 64
Border ==
  /\ hist = <<>>
  /\ \E y \in 1..Len(Years), m \in 1..Len(Months), d \in 1..Len(Mdays) :
       \/ \E h \in 1..Len(Hours), mi, s \in 1..Len(Sixty) :
            /\ Deep \/ y \in {5, 10, 12} \/ (y + m + d + h + mi + s) % 7 = 0
            /\ Value(Years[y], Months[m], Mdays[d], Hours[h], Sixty[mi], Sixty[s], Mix(y, m, d, h + mi + s))
       \/ \E mi, s \in {0, 1}, w \in {0, 21, 42, 63} : Value(Years[y], Months[m], Mdays[d], 24, mi, s, w)
BorderSpec == ApiInit /\ [][Border]_apiVars

\* every day of some years, and which of them exist
EveryDay ==
  /\ hist = <<>>
  /\ \E y \in {1400, 1600, 1700, 1899, 2016, 2019, 2100, 9999}, m \in 1..12, d \in 1..31 : Value(y, m, d, (d % 25), (m * 5) % 60, (d * 2) % 60, (y + m + d) % 64)
DaysSpec == ApiInit /\ [][EveryDay]_apiVars

\* values of every size, and dates with one component too large or too small by a power of 2
Sizes == <<-2147483647 - 1, -2147483647, -65537, -65536, -32769, -32768, -257, -256, -255, -129, -128, -127, -5, 5, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 67555,
           131072, 16777217, 33554432, 1073741824, 2147483646, 2147483647>>
Powers == {128, 256, 512, 1024, 4096, 32768, 65536, 131072, 16777216, 1073741824}
Noon == [year |-> 2019, month |-> 5, mday |-> 15, hour |-> 12, min |-> 1, sec |-> 2]
Extreme ==
  \/ /\ Len(hist) < 2
     /\ \E c \in Comps, n \in 1..Len(Sizes) : /\ (Len(hist) = 1 => n % 5 = 0 \/ hist[1][3] = c)
                                            /\ (CSet(0, c, Sizes[n]) \/ CImply(0, c, Sizes[n]))
  \/ /\ hist = <<>>
     /\ \E c \in DOMAIN Noon, k \in Powers, s \in {1, -1}, w \in {0, 21, 42, 63} :
          LET d == [Noon EXCEPT ![c] = @ + s * k] IN Value(d.year, d.month, d.mday, d.hour, d.min, d.sec, w)
ExtremeSpec == ApiInit /\ [][Extreme]_apiVars

\* every set of known values, and what is done to it
Given ==
  \/ hist = <<>> /\ \E m \in 0..255, v \in {2, 7} : CFrom(0, m, v) \/ CAnchored(0, m, v)
  \/ Len(hist) = 1 /\ \E c \in Comps : CSet(0, c, 50) \/ CImply(0, c, 51)
  \/ Len(hist) = 1 /\ (CAssign(1, 0) \/ CCopy(1, 0) \/ CUnknown(0))
GivenSpec == ApiInit /\ [][Given]_apiVars

EmitParts == PrintT(ToJson(hist) \o "\t" \o ToJson(SeeAllParts))
PossibleIsDate == \A k \in Slots : Possible(parts[k]) => Instant(parts[k])[1] \in 0..3145000 /\ Instant(parts[k])[2] \in 0..86399
===============================================================================
