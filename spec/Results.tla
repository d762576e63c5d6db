------------------------------- MODULE Results ------------------------------
(***************************************************************************)
(* What the library reports: results, each made of a start and possibly an *)
(* end, each a set of date/time components that are known, implied or      *)
(* absent.                                                                 *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets

Comps == {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"}

\* certain = known from the text; an absent component is an implied 0
Absent == <<FALSE, 0>>
Blank  == [c \in Comps |-> Absent]

Certain(p, c) == p[c][1]
Val(p, c)     == p[c][2]

Know(p, c, v)  == [p EXCEPT ![c] = <<TRUE, v>>]
Imply(p, c, v) == IF p[c][1] THEN p ELSE [p EXCEPT ![c] = <<FALSE, v>>]

KnowDate(p, n)  == LET d == Civil(n) IN Know(Know(Know(p, "year", d.y), "month", d.m), "mday", d.d)
ImplyDate(p, n) == LET d == Civil(n) IN Imply(Imply(Imply(p, "year", d.y), "month", d.m), "mday", d.d)
KnowClock(p, t) ==
  Know(Know(Know(p, "hour", HourOf(t)), "min", MinuteOf(t)), "sec", SecondOf(t))
ImplyClock(p, t) ==
  Imply(Imply(Imply(p, "hour", HourOf(t)), "min", MinuteOf(t)), "sec", SecondOf(t))

\* does p denote a date and time?  (a day may end at 24:00:00, except the last one of the calendar)
Possible(p) ==
  /\ IsDate(Val(p, "year"), Val(p, "month"), Val(p, "mday"))
  /\ Val(p, "min") \in 0..59 /\ Val(p, "sec") \in 0..59
  /\ \/ Val(p, "hour") \in 0..23
     \/ /\ Val(p, "hour") = 24 /\ Val(p, "min") = 0 /\ Val(p, "sec") = 0
        /\ <<Val(p, "year"), Val(p, "month"), Val(p, "mday")>> # <<9999, 12, 31>>

\* the instant p denotes
Instant(p) ==
  Plus(<<DayNum(Val(p, "year"), Val(p, "month"), Val(p, "mday")), 0>>, 0,
       Val(p, "hour") * 3600 + Val(p, "min") * 60 + Val(p, "sec"))

Result(at, len, tags, start) ==
  [at |-> at, len |-> len, tags |-> tags, ranged |-> FALSE, from |-> start, to |-> Blank]
Ranged(r, end) == [r EXCEPT !.ranged = TRUE, !.to = end]

EndOf(r) == r.at + r.len

\* an expression that turned out to denote nothing
Nothing == <<>>
Meant(r) == r # Nothing /\ Possible(r.from) /\ (r.ranged => Possible(r.to))
=============================================================================
