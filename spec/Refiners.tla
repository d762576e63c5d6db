------------------------------- MODULE Refiners -----------------------------
(***************************************************************************)
(* Refining the results of all parsers, and printing.                      *)
(***************************************************************************)
EXTENDS Meanings

Last(s)  == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* ---- ordering by index; results with the same index keep their order ---
RECURSIVE Insert(_, _)
Insert(s, r) == IF s = <<>> THEN <<r>>
                ELSE IF r.at >= Last(s).at THEN Append(s, r)
                ELSE Append(Insert(Front(s), r), Last(s))
RECURSIVE SortedFrom(_, _)
SortedFrom(acc, rs) == IF rs = <<>> THEN acc ELSE SortedFrom(Insert(acc, Head(rs)), Tail(rs))
Sorted(rs) == SortedFrom(<<>>, rs)

\* ---- of overlapping results only the longest stays ---------------------
RECURSIVE Dissolve(_, _)
Dissolve(kept, rs) ==
  IF rs = <<>> THEN kept
  ELSE LET r == Head(rs)  p == Last(kept) IN
       IF r.at < EndOf(p)
       THEN Dissolve(IF r.len > p.len THEN Append(Front(kept), r) ELSE kept, Tail(rs))
       ELSE Dissolve(Append(kept, r), Tail(rs))
WithoutOverlaps(rs) == IF rs = <<>> THEN rs ELSE Dissolve(<<Head(rs)>>, Tail(rs))

\* ---- a zone abbreviation behind a clock time, at the end of the text ---
ZoneAfter(text, r) ==
  LET tail == SubSeq(text, EndOf(r) + 1, Len(text))
      m == IF tail = "" THEN NoMatch ELSE MatchesWhole(tail, ZoneTree, 1)
      name == IF m = NoMatch THEN "" ELSE ToUpper(Sub(tail, m[2][1][1], m[2][1][2]))
  IN IF name # "" /\ Has(Zones, name) THEN <<Lookup(Zones, name), Len(tail)>> ELSE <<>>

Zoned(text, r) ==
  IF "ENTimeExpressionParser" \notin r.tags THEN r
  ELSE LET z == ZoneAfter(text, r)
           put(p) == IF Certain(p, "tzoffset") THEN p ELSE Know(p, "tzoffset", z[1])
       IN IF z = <<>> THEN r
          ELSE [r EXCEPT !.from = put(@), !.to = IF r.ranged THEN put(@) ELSE @,
                         !.len = @ + z[2], !.tags = @ \cup {"ExtractTimeZoneAbbreviation"}]

WithZones(text, rs) == [k \in 1..Len(rs) |-> Zoned(text, rs[k])]

\* ---- a date next to a time makes a date-time ---------------------------
DateOnly(r) == ~Certain(r.from, "hour")
TimeOnly(r) == ~Certain(r.from, "month") /\ ~Certain(r.from, "mday")

AtTime(d, t) ==
  LET clock == IF Certain(t, "hour")
               THEN LET hm == Know(Know(d, "hour", Val(t, "hour")), "min", Val(t, "min"))
                    IN IF Certain(t, "sec") THEN Know(hm, "sec", Val(t, "sec"))
                       ELSE Imply(hm, "sec", Val(t, "sec"))
               ELSE Imply(Imply(Imply(d, "hour", Val(t, "hour")), "min", Val(t, "min")), "sec", Val(t, "sec"))
  IN IF Certain(t, "tzoffset") THEN Know(clock, "tzoffset", Val(t, "tzoffset")) ELSE clock

NextDayOf(p) ==
  LET n == Instant(p)[1] + 1
  IN IF Certain(p, "mday") THEN KnowDate(p, n) ELSE ImplyDate(p, n)

\* d: the date result, t: the time result; nothing if the calendar has no such date-time
DateTime(d, t) ==
  LET start == AtTime(d.from, t.from)
      ranged == d.ranged \/ t.ranged
      end0 == AtTime(IF d.ranged THEN d.to ELSE d.from, IF t.ranged THEN t.to ELSE t.from)
      late == ~d.ranged /\ EarlierThan(Instant(end0), Instant(start))
      end == IF late THEN NextDayOf(end0) ELSE end0
      at == IF d.at < t.at THEN d.at ELSE t.at
      stop == IF EndOf(d) > EndOf(t) THEN EndOf(d) ELSE EndOf(t)
      res == Result(at, stop - at, d.tags \cup t.tags \cup {"ENMergeDateAndTimeRefiner"}, start)
  IN IF ~Possible(start) \/ (ranged /\ (~Possible(end0) \/ (late /\ Instant(end0)[1] = LastDay))) THEN Nothing
     ELSE IF ranged THEN Ranged(res, end) ELSE res

\* the two results merge into ... (nothing: they do not)
MergedDT(a, b) ==
  LET x == IF DateOnly(a) /\ TimeOnly(b) THEN DateTime(a, b) ELSE Nothing
  IN IF x # Nothing THEN x
     ELSE IF DateOnly(b) /\ TimeOnly(a) THEN DateTime(b, a) ELSE Nothing

RECURSIVE MergeDT(_)
MergeDT(rs) ==
  IF Len(rs) < 2 THEN rs
  ELSE LET m == MergedDT(rs[1], rs[2])
       IN IF m # Nothing THEN <<m>> \o MergeDT(SubSeq(rs, 3, Len(rs)))
          ELSE <<rs[1]>> \o MergeDT(Tail(rs))

\* ---- two dates with a connecting word between them make a range --------
Connected(text, a, b) == Occurs(Sub(text, EndOf(a) + 1, b.at - EndOf(a)), RangeWordG)

Range(a, b) ==
  LET swap == EarlierThan(Instant(b.from), Instant(a.from))
      x == IF swap THEN b ELSE a
      y == IF swap THEN a ELSE b
      at == IF a.at < b.at THEN a.at ELSE b.at
      stop == IF EndOf(a) > EndOf(b) THEN EndOf(a) ELSE EndOf(b)
  IN Ranged(Result(at, stop - at, a.tags \cup b.tags \cup {"ENMergeDateRangeRefiner"}, x.from), y.from)

RECURSIVE MergeRanges(_, _)
MergeRanges(text, rs) ==
  IF Len(rs) < 2 THEN rs
  ELSE IF ~rs[1].ranged /\ ~rs[2].ranged /\ Connected(text, rs[1], rs[2])
       THEN <<Range(rs[1], rs[2])>> \o MergeRanges(text, SubSeq(rs, 3, Len(rs)))
       ELSE <<rs[1]>> \o MergeRanges(text, Tail(rs))

\* ---- printing ----------------------------------------------------------
LOCAL MonthNames ==
  <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Two(n)  == Char(48 + (n \div 10)) \o Char(48 + (n % 10))
Four(n) == Two(n \div 100) \o Two(n % 100)

Stamp(t) == LET c == Civil(t[1]) IN
  Four(c.y) \o "-" \o MonthNames[c.m] \o "-" \o Two(c.d) \o " " \o
  Two(HourOf(t)) \o ":" \o Two(MinuteOf(t)) \o ":" \o Two(SecondOf(t))

\* times with a zone abbreviation are printed in UTC
InstantOf(r, p) ==
  IF "ExtractTimeZoneAbbreviation" \in r.tags THEN AddMinutes(Instant(p), -Val(p, "tzoffset")) ELSE Instant(p)
Printed(r, p) == Stamp(InstantOf(r, p))

\* in UTC a date may be outside the calendar
Printable(r) == OnCalendar(InstantOf(r, r.from)[1]) /\ (r.ranged => OnCalendar(InstantOf(r, r.to)[1]))

Render(r) == IF r.ranged THEN Printed(r, r.from) \o " - " \o Printed(r, r.to) ELSE Printed(r, r.from)

Answer(rs) == IF rs = <<>> \/ (rs # <<>> /\ ~Printable(rs[1])) THEN "[???] -- Invalid date" ELSE "Date:\t" \o Render(rs[1])
=============================================================================
