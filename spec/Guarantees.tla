------------------------------ MODULE Guarantees ----------------------------
(***************************************************************************)
(* The guarantees the system gives, stated without reference to how the    *)
(* results come about: what a user may rely on, for every text.  TLC       *)
(* checks them on the specification; the conformance driver then checks    *)
(* that the code does what the specification says.                         *)
(***************************************************************************)
EXTENDS Chrono

Scanned == stage \in {"found", "sorted", "disjoint", "zoned", "timed", "ranged", "printed"}

AllFound == UNION {{found[p][k] : k \in 1..Len(found[p])} : p \in DOMAIN found}
Day(p)   == Instant(p)[1]

\* ---- every parser ------------------------------------------------------
\* results are where the text is, from left to right, without overlap (P03)
SpansOrdered ==
  Scanned => \A p \in DOMAIN found : \A k \in 1..Len(found[p]) :
    LET r == found[p][k] IN
    /\ r.len > 0 /\ r.at >= 0 /\ EndOf(r) <= Len(text)
    /\ k > 1 => EndOf(found[p][k - 1]) <= r.at

\* only dates that exist (P22)
OnlyRealDates == Scanned => \A r \in AllFound : Possible(r.from) /\ (r.ranged => Possible(r.to))

\* case does not matter (P03)
CaseBlind ==
  stage = "scanned" => \A p \in DOMAIN occ : occ[p] = Occurrences(p, ToLower(ToUpper(doc)))

\* every expression is looked for behind the previous one, and in no other place (P03)
Searched ==
  stage = "scanned" => \A p \in DOMAIN occ : \A k \in 1..Len(occ[p]) :
    LET o == occ[p][k]
        from == IF k = 1 THEN 0 ELSE occ[p][k - 1].at + occ[p][k - 1].len
    IN /\ o.at >= from /\ o.str = Sub(text, o.at + 1, o.len)
       \* what is left of it alone is no expression unless it was cut out of one
       /\ k = Len(occ[p]) => Occurrences(p, SubSeq(text, o.at + o.len + 1, Len(text))) = <<>>

\* ---- casual dates (P04) ------------------------------------------------
CasualDates ==
  stage = "found" /\ "cdp" \in Parsers => \A k \in 1..Len(found["cdp"]) :
    LET r == found["cdp"][k]  d == Day(r.from) - ref[1]
        w == Sub(text, r.at + 1, r.len)
    IN /\ \A c \in {"year", "month", "mday"} : Certain(r.from, c)
       /\ d \in {-1, 0, 1} /\ ~r.ranged
       /\ d = 1 => w \in {"tomorrow", "tmr"}
       /\ w \in {"tomorrow", "tmr"} /\ d = 0 => ref[2] < 3600
       /\ d = -1 => w = "yesterday" \/ (w \notin {"now", "today", "tonight", "tomorrow", "tmr"} /\ ref[2] >= 7 * 3600)
       /\ w = "now" <=> Certain(r.from, "hour")
       /\ w = "now" => Instant(r.from) = ref

\* ---- casual times (P05) ------------------------------------------------
CasualTimes ==
  stage = "found" /\ "ctp" \in Parsers => \A k \in 1..Len(found["ctp"]) :
    LET r == found["ctp"][k] IN
    /\ \A c \in Comps : ~Certain(r.from, c)
    /\ Day(r.from) = ref[1] /\ Val(r.from, "wday") = WeekdayOf(ref[1])
    /\ Val(r.from, "min") = MinuteOf(ref) /\ Val(r.from, "hour") \in {6, 12, 15, 20}

\* ---- weekdays (P06) ----------------------------------------------------
WeekOf(n) == n - WeekdayOf(n)
Weekdays7 == <<"sun", "mon", "tue", "wed", "thu", "fri", "sat">>
WeekdaysRight ==
  stage = "found" /\ "dow" \in Parsers => \A k \in 1..Len(found["dow"]) :
    LET r == found["dow"][k]
        w == Sub(text, r.at + 1, r.len)
        n == Day(r.from)
    IN /\ Contains(w, Weekdays7[WeekdayOf(n) + 1])
       /\ WeekOf(n) - WeekOf(ref[1]) \in {-7, 0, 7}
       /\ Certain(r.from, "mday") <=> WeekOf(n) # WeekOf(ref[1])
       /\ WeekOf(n) < WeekOf(ref[1]) => Contains(w, "last")
       /\ WeekOf(n) > WeekOf(ref[1]) => Contains(w, "next")

\* ---- amounts of time (P07, P08, P09, P10) ------------------------------
NotBefore(p, t) == IF Val(p, "hour") = 0 /\ Val(p, "min") = 0 /\ Val(p, "sec") = 0
                   THEN Day(p) >= t[1] ELSE ~EarlierThan(Instant(p), <<t[1], t[2] - (t[2] % 60)>>)
NotAfter(p, t)  == ~EarlierThan(t, Instant(p))

Forward == stage = "found" => \A p \in Parsers \cap {"dfp", "tlp"} : \A k \in 1..Len(found[p]) :
             NotBefore(found[p][k].from, ref)
Backward == stage = "found" /\ "tap" \in Parsers => \A k \in 1..Len(found["tap"]) :
             NotAfter(found["tap"][k].from, ref)

\* an amount of time ahead, and the same amount back from there, lead back to the day of the start,
\* unless the day had to be cut to the length of a month
NoTimeOfDay(p) == \A c \in {"hour", "min", "sec"} : Val(p, c) = 0 /\ ~Certain(p, c)

DateUnitsHaveNoClock ==
  stage = "found" => \A p \in Parsers \cap {"tap", "tlp"} : \A k \in 1..Len(found[p]) :
    LET r == found[p][k] IN
    /\ Certain(r.from, "hour") <=> Certain(r.from, "sec")
    /\ Certain(r.from, "mday") \/ Certain(r.from, "hour") \/ Day(r.from) = ref[1]

NothingSure ==
  stage = "found" => \A p \in Parsers \cap {"dfp", "wxp"} : \A k \in 1..Len(found[p]) :
    \A c \in Comps : ~Certain(found[p][k].from, c)

WholeWeeks ==
  stage = "found" /\ "wxp" \in Parsers => \A k \in 1..Len(found["wxp"]) :
    WeekdayOf(Day(found["wxp"][k].from)) = WeekdayOf(ref[1]) /\ NoTimeOfDay(found["wxp"][k].from)

Periods ==
  stage = "found" /\ "rel" \in Parsers => \A k \in 1..Len(found["rel"]) :
    LET r == found["rel"][k] IN
    r.ranged => /\ Day(r.from) <= ref[1] /\ ref[1] <= Day(r.to)
                /\ \/ Day(r.to) - Day(r.from) = 6 /\ WeekdayOf(Day(r.from)) = 0
                   \/ Val(r.from, "mday") = 1 /\ Civil(Day(r.to) + 1).d = 1 

\* ---- month names (P12) -------------------------------------------------
NearestYears ==
  stage = "found" => \A p \in Parsers \cap {"mme", "mnp"} : \A k \in 1..Len(found[p]) :
    LET r == found[p][k]
        n == Day(r.from)
        c == Civil(n)
        dist(y) == Abs(DayNum(y, c.m, c.d) - ref[1])
        noyear == \A j \in 1..Len(text) : ~IsDigit(CodeTable[SubSeq(text, j, j)]) \/ p = "mme"
    IN /\ Certain(r.from, "month")
       /\ p = "mme" => Certain(r.from, "mday")
       /\ (p = "mnp" /\ ~Certain(r.from, "year")) =>
            \A y \in (c.y - 1)..(c.y + 1) : YearOK(y) => dist(c.y) <= dist(y)

\* ---- clock times (P13) -------------------------------------------------
ClockTimes ==
  stage = "found" /\ "txp" \in Parsers => \A k \in 1..Len(found["txp"]) :
    LET r == found["txp"][k] IN
    /\ Certain(r.from, "hour") /\ Certain(r.from, "min") /\ ~Certain(r.from, "mday")
    /\ <<Val(r.from, "year"), Val(r.from, "month"), Val(r.from, "mday")>> =
         <<Civil(ref[1]).y, Civil(ref[1]).m, Civil(ref[1]).d>>
    /\ r.ranged => /\ ~EarlierThan(Instant(r.to), Instant(r.from))
                   /\ ~EarlierThan(Plus(Instant(r.from), 1, 0), Instant(r.to))

\* ---- holidays (P14) ----------------------------------------------------
Holidays ==
  stage = "found" /\ "hol" \in Parsers => \A k \in 1..Len(found["hol"]) :
    LET r == found["hol"][k]  n == Day(r.from) IN
    /\ Civil(n).y = Civil(ref[1]).y
    /\ Certain(r.from, "wday") => WeekdayOf(n) = Val(r.from, "wday") /\ Val(r.from, "wday") \in {1, 4, 5}
    /\ \A c \in {"year", "month", "mday", "hour", "min"} : Certain(r.from, c)

\* ---- ISO (P11) ---------------------------------------------------------
IsoExact ==
  stage = "found" /\ "iso" \in Parsers => \A k \in 1..Len(found["iso"]) :
    LET r == found["iso"][k] IN
    /\ Sub(text, r.at + 1, 4) = Four(Val(r.from, "year"))
    /\ Certain(r.from, "hour") <=> Certain(r.from, "tzoffset")
    /\ Abs(Val(r.from, "tzoffset")) <= 99 * 60 + 99

\* ---- refining ----------------------------------------------------------
Spans(rs) == [k \in 1..Len(rs) |-> <<rs[k].at, EndOf(rs[k])>>]
InOrder(rs) == \A k \in 2..Len(rs) : rs[k - 1].at <= rs[k].at
Disjoint(rs) == \A k \in 2..Len(rs) : EndOf(rs[k - 1]) <= rs[k].at
Elements(rs) == {rs[k] : k \in 1..Len(rs)}

StageNo == CASE stage = "found" -> 1 [] stage = "sorted" -> 2 [] stage = "disjoint" -> 3
             [] stage = "zoned" -> 4 [] stage = "timed" -> 5 [] stage \in {"ranged", "printed"} -> 6 [] OTHER -> 0

\* sorting keeps every result (P20)
SortKeeps == StageNo = 2 =>
  /\ InOrder(results) /\ Len(results) = Len(log[1]) /\ Elements(results) = Elements(log[1])

\* of overlapping results the longest stays, and nothing else is lost (P15)
OverlapGone == StageNo = 3 =>
  LET before == log[Len(log) - 1] IN
  /\ Disjoint(results)
  /\ Elements(results) \subseteq Elements(before)
  /\ \A k \in 1..Len(before) :
       \/ before[k] \in Elements(results)
       \* it overlaps a result that is at least as long
       \/ \E j \in 1..Len(before) : j # k /\ before[j].len >= before[k].len
                                    /\ before[j].at < EndOf(before[k]) /\ before[k].at < EndOf(before[j])

\* zones change nothing but the zone and the extent of clock times (P18)
ZonesOnly == StageNo = 4 =>
  LET before == log[Len(log) - 1] IN
  /\ Len(results) = Len(before)
  /\ \A k \in 1..Len(before) :
       LET a == before[k]  b == results[k] IN
       \/ a = b
       \/ /\ "ENTimeExpressionParser" \in a.tags /\ b.at = a.at /\ EndOf(b) = Len(text)
          /\ b.tags = a.tags \cup {"ExtractTimeZoneAbbreviation"}
          /\ \A c \in Comps \ {"tzoffset"} : b.from[c] = a.from[c] /\ b.to[c] = a.to[c]
          /\ Certain(b.from, "tzoffset") /\ (b.ranged <=> a.ranged)

\* merging keeps the order, loses nothing, and a merged result covers what it is made of (P16, P17)
Covered(a, rs) == \E k \in 1..Len(rs) : rs[k].at <= a.at /\ EndOf(rs[k]) >= EndOf(a) /\ a.tags \subseteq rs[k].tags
Merges(tag) ==
  LET before == log[Len(log) - 1] IN
  /\ InOrder(before) => InOrder(results)
  /\ \A k \in 1..Len(before) : Covered(before[k], results)
  /\ \A k \in 1..Len(results) : results[k] \in Elements(before) \/ tag \in results[k].tags
  /\ Len(results) = Len(before) - Cardinality({k \in 1..Len(results) :
                                               tag \in results[k].tags /\ results[k] \notin Elements(before)})

DateTimesMerged == StageNo = 5 => Merges("ENMergeDateAndTimeRefiner")
RangesMerged    == StageNo = 6 /\ stage = "ranged" =>
  /\ Merges("ENMergeDateRangeRefiner")
  /\ \A k \in 1..Len(results) : results[k] \notin Elements(log[Len(log) - 1]) =>
       results[k].ranged /\ ~EarlierThan(Instant(results[k].to), Instant(results[k].from))

\* ---- the answer (P20) --------------------------------------------------
AnswerGiven == stage = "printed" =>
  IF \A k \in 1..Len(RunOrder) : found[RunOrder[k]] = <<>> THEN answer = "[???] -- Invalid date"
  ELSE results # <<>> /\ (StartsWith(answer, "Date:\t") <=> Printable(results[1]))
=============================================================================
