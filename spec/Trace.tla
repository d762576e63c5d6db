-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is a recorded session a behaviour of the specification?                 *)
(*                                                                         *)
(* A session is a sequence of texts given to the parsers (and, in full     *)
(* sessions, taken through all the steps of the program).  Every event     *)
(* names the step and carries what the code had after it.                  *)
(***************************************************************************)
EXTENDS Far, IOUtils

TheTrace == ndJsonDeserialize(IOEnv.TRACE)

\* what the configurations assign to the constants of Chrono
TraceTexts == <<{""}>>
TraceParsers == LET f == TheTrace[1].parsers IN {f[k] : k \in 1..Len(f)}
TraceRefs(t) == {}

VARIABLE l                                   \* the next event

E == TheTrace[l]
IsEvent(e) == l <= Len(TheTrace) /\ E.event = e /\ l' = l + 1

TraceInit == Init /\ l = 2                   \* line 1 says which parsers are run

TraceRead == IsEvent("read") /\ Again(E.text)
TraceScan == IsEvent("scan") /\ ScanText /\ text' = E.text

\* Refer, with the logged instant and results
ReferTo(r) ==
  /\ stage = "scanned" /\ stage' = "found" /\ ref' = r
  /\ found' = [p \in Parsers |-> Parse(p, occ[p], r)]
  /\ results' = Concat(found', RunOrder) /\ log' = <<results'>>
  /\ UNCHANGED <<doc, text, occ, answer>>

TraceRefer == /\ IsEvent("refer") /\ ReferTo(E.ref)
              /\ \A p \in Parsers : EncAll(found'[p]) = E.found[p]

\* as Refer, but only where the expressions are was recorded
SpansOf(rs) == [k \in 1..Len(rs) |-> <<rs[k].at, rs[k].len>>]
TracePlace == /\ IsEvent("place") /\ ReferTo(E.ref)
              /\ \A p \in Parsers : SpansOf(found'[p]) = E.spans[p]

\* what the parsers found is taken as it was recorded
Tagged(m) == {TagOrder[k] : k \in {j \in 1..Len(TagOrder) : (m \div (2 ^ (j - 1))) % 2 = 1}}
DecParts(x) == [c \in Comps |-> LET k == CHOOSE j \in 1..8 : CompOrder[j] = c IN <<x[k][1] = 1, x[k][2]>>]
Dec(x) == [at |-> x[1], len |-> x[2], tags |-> Tagged(x[3]), ranged |-> x[4] = 1, from |-> DecParts(x[5]), to |-> DecParts(x[6])]
DecAll(xs) == [k \in 1..Len(xs) |-> Dec(xs[k])]
Take(t, low, r, f) ==
  /\ stage \in {"read", "found", "printed"} /\ stage' = "found"
  /\ doc' = t /\ text' = low /\ occ' = NoOcc /\ ref' = r
  /\ found' = [p \in Parsers |-> DecAll(f[p])]
  /\ results' = Concat(found', RunOrder) /\ log' = <<results'>> /\ answer' = ""
TraceTake == IsEvent("take") /\ Take(E.text, ToLower(E.text), E.ref, E.found)

\* any answer will do, as long as it consists of dates that exist, where the text is
WellFormed(rs, t) ==
  \A k \in 1..Len(rs) : LET r == rs[k] IN
    /\ Possible(r.from) /\ (r.ranged => Possible(r.to))
    /\ r.len > 0 /\ r.at >= 0 /\ EndOf(r) <= Len(t)
    /\ k > 1 => EndOf(rs[k - 1]) <= r.at
TraceAnswer ==
  /\ IsEvent("answered") /\ E.ok = 1 /\ Take(E.text, E.text, E.ref, E.found)
  /\ \A p \in Parsers : WellFormed(found'[p], text')

\* results of the recorder's choosing, before a step or to be shown
TraceGive ==
  /\ IsEvent("give") /\ stage' = E.stage /\ doc' = E.text /\ text' = E.text
  /\ results' = DecAll(E.results) /\ log' = <<results'>> /\ answer' = ""
  /\ occ' = NoOcc /\ ref' = NoRef /\ found' = NoOcc
TraceShow ==
  /\ IsEvent("show") /\ answer' = Render(Dec(E.result)) /\ answer' = E.answer
  /\ UNCHANGED <<stage, doc, text, occ, ref, found, results, log>>

\* the program without a reference instant: the answer is the one for an instant while it was running
TraceClock ==
  /\ IsEvent("clock") /\ answer' = E.answer
  /\ \E k \in 1..Len(E.said) : E.said[k] = E.answer
  /\ UNCHANGED <<stage, doc, text, occ, ref, found, results, log>>

\* the program with arguments that are not a text and a reference instant, if at all: it explains itself, and answers nothing
TraceUsage ==
  /\ IsEvent("usage") /\ E.arguments \notin {1} /\ E.answer = E.usage /\ E.answers = 0
  /\ UNCHANGED vars

\* a text too long to be looked at here: it is answered
TraceLong == IsEvent("long") /\ E.ok = 1 /\ UNCHANGED vars

\* E.times copies of E.unit before a text
Thrice == ToLower(E.unit \o E.unit \o E.unit \o E.text)
TraceFar ==
  /\ IsEvent("far") /\ E.left = 1
  /\ \A p \in Parsers :
       LET rs == Parse(p, Occurrences(p, Thrice), E.ref)
           S  == IF E.spans = 1 THEN SpansOf(rs) ELSE EncAll(rs)
       IN Alike(S, Len(E.unit)) => E.found[p] = Stretched(S, Len(E.unit), E.times)
  /\ UNCHANGED vars

\* the program's answer to three copies and a text was just explained; the answer to more copies is the same, if the same is found
TraceFarRun ==
  /\ IsEvent("farrun") /\ stage = "printed"
  /\ (\A p \in Parsers : LET S == EncAll(found[p]) IN Alike(S, Len(E.unit)) /\ E.found[p] = Stretched(S, Len(E.unit), E.times))
       => E.answer = answer
  /\ UNCHANGED vars

TraceStep(name, action) == IsEvent(name) /\ action /\ EncAll(results') = E.out

\* a step whose outcome was not recorded
TraceSilent == IsEvent("step") /\ (Sort \/ RemoveOverlaps \/ ExtractZones \/ MergeDateAndTime \/ MergeDateRange)

TraceNext ==
  \/ TraceFar \/ TraceFarRun
  \/ TraceClock \/ TraceUsage \/ TraceLong
  \/ TracePlace \/ TraceGive \/ TraceShow
  \/ TraceTake \/ TraceAnswer \/ TraceSilent
  \/ TraceRead \/ TraceScan \/ TraceRefer
  \/ TraceStep("sort", Sort)
  \/ TraceStep("olr", RemoveOverlaps)
  \/ TraceStep("tza", ExtractZones)
  \/ TraceStep("mdt", MergeDateAndTime)
  \/ TraceStep("mdr", MergeDateRange)
  \/ IsEvent("print") /\ PrintAnswer /\ answer' = E.answer

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

\* how much of the trace was explained
Explained == PrintT(ToJson(<<TLCGet("stats").diameter, Len(TheTrace)>>))
=============================================================================
