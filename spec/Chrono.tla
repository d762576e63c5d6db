-------------------------------- MODULE Chrono ------------------------------
(***************************************************************************)
(* The system: a text and a reference instant go in, dates come out.       *)
(*                                                                         *)
(* One action per step of the program:                                     *)
(*   Scan      every parser looks for its expressions in the text          *)
(*   Refer     the reference instant is taken into account: each parser    *)
(*             reports the results its expressions denote                  *)
(*   Sort, RemoveOverlaps, ExtractZones, MergeDateAndTime, MergeDateRange  *)
(*             the refinement steps, in this order                         *)
(*   PrintAnswer  the first result is printed                              *)
(*                                                                         *)
(* Texts, Parsers and RefsOf(text) say what is explored.  Scan comes       *)
(* before Refer because where an expression is does not depend on the      *)
(* reference instant.                                                      *)
(***************************************************************************)
EXTENDS Refiners, Json, TLCExt

CONSTANTS Texts,      \* the texts: a sequence of sets of them
          Parsers,    \* the parsers that are run
          RefsOf(_)   \* text -> the reference instants

VARIABLES stage,     \* the step that was done last
          doc,       \* the text, as given
          text,      \* the text, in lower case
          occ,       \* parser -> its occurrences
          ref,       \* the reference instant
          found,     \* parser -> its results
          results,   \* the results, so far refined
          log,       \* the results after each step
          answer     \* what was printed

vars == <<stage, doc, text, occ, ref, found, results, log, answer>>

NoRef == <<-1, 0>>
NoOcc == [p \in {} |-> <<>>]

Init ==
  /\ stage = "read" /\ (\E k \in 1..Len(Texts) : doc \in Texts[k]) /\ text = ""
  /\ occ = NoOcc /\ ref = NoRef /\ found = NoOcc
  /\ results = <<>> /\ log = <<>> /\ answer = ""

RunOrder == SelectSeq(ProgramParsers, LAMBDA p : p \in Parsers)

ScanText ==
  /\ stage = "read"
  /\ stage' = "scanned"
  /\ text' = ToLower(doc)
  /\ occ' = [p \in Parsers |-> Occurrences(p, text')]
  /\ UNCHANGED <<doc, ref, found, results, log, answer>>

RECURSIVE Concat(_, _)
Concat(f, ps) == IF ps = <<>> THEN <<>> ELSE f[Head(ps)] \o Concat(f, Tail(ps))

Refer ==
  /\ stage = "scanned"
  /\ stage' = "found"
  /\ ref' \in RefsOf(doc)
  /\ found' = [p \in Parsers |-> Parse(p, occ[p], ref')]
  /\ results' = Concat(found', RunOrder)
  /\ log' = <<results'>>
  /\ UNCHANGED <<doc, text, occ, answer>>

Step(from, to, res) ==
  /\ stage = from
  /\ stage' = to
  /\ results' = res
  /\ log' = Append(log, res)
  /\ UNCHANGED <<doc, text, occ, ref, found, answer>>

Sort             == Step("found",    "sorted",   Sorted(results))
RemoveOverlaps   == Step("sorted",   "disjoint", WithoutOverlaps(results))
ExtractZones     == Step("disjoint", "zoned",    WithZones(text, results))
MergeDateAndTime == Step("zoned",    "timed",    MergeDT(results))
MergeDateRange   == Step("timed",    "ranged",   MergeRanges(text, results))

PrintAnswer ==
  /\ stage = "ranged"
  /\ stage' = "printed"
  /\ answer' = Answer(results)
  /\ UNCHANGED <<doc, text, occ, ref, found, results, log>>

\* the same process is given another text: nothing is left of the previous one
Again(t) ==
  /\ stage \in {"read", "found", "printed"}
  /\ stage' = "read" /\ doc' = t /\ text' = ""
  /\ occ' = NoOcc /\ ref' = NoRef /\ found' = NoOcc
  /\ results' = <<>> /\ log' = <<>> /\ answer' = ""

Next == ScanText \/ Refer \/ Sort \/ RemoveOverlaps \/ ExtractZones \/ MergeDateAndTime \/ MergeDateRange \/ PrintAnswer

Spec == Init /\ [][Next]_vars

\* the parsers alone
ParserSpec == Init /\ [][ScanText \/ Refer]_vars

\* every text is answered
LiveSpec == Spec /\ WF_vars(Next)
Answered == <>(stage = "printed")

\* ---- behaviours, as they are handed to the conformance driver ----------
CompOrder == <<"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset">>
EncParts(p) == [k \in 1..8 |-> <<IF p[CompOrder[k]][1] THEN 1 ELSE 0, p[CompOrder[k]][2]>>]
TagOrder == <<"ENCasualTimeParser", "ENCasualDateParser", "ENDeadlineFormatParser", "ENDayOfTheWeekParser",
              "ENMonthNameMiddleEndianParser", "ENTimeLaterParser", "ENMonthNameParser", "ENTimeAgoFormatParser",
              "ENISOFormatParser", "ENTimeExpressionParser", "ENUSHolidaysParser", "ENRelativeDateFormatParser",
              "ENMergeDateRangeRefiner", "ENMergeDateAndTimeRefiner", "ExtractTimeZoneAbbreviation">>
RECURSIVE EncTags(_, _)
EncTags(tags, k) == IF k > Len(TagOrder) THEN 0
                    ELSE (IF TagOrder[k] \in tags THEN 1 ELSE 0) + 2 * EncTags(tags, k + 1)
Enc(r) == <<r.at, r.len, EncTags(r.tags, 1), IF r.ranged THEN 1 ELSE 0, EncParts(r.from), EncParts(r.to)>>
EncAll(rs) == [k \in 1..Len(rs) |-> Enc(rs[k])]
=============================================================================
