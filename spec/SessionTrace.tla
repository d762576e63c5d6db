------------------------------ MODULE SessionTrace ----------------------------
(* Recorded sessions.                                                      *)
EXTENDS Session, IOUtils

\* recorded sessions: event n says which call was made, what the answer was, and whether the arguments were left alone
TheTrace == ndJsonDeserialize(IOEnv.TRACE)
TraceCalls == 1..TheTrace[1].calls
VARIABLE l
TraceInit == SessionInit /\ l = 2
TraceNext ==
  /\ l <= Len(TheTrace) /\ l' = l + 1
  /\ TheTrace[l].kept = 1
  /\ Ask(TheTrace[l].call, TheTrace[l].answer)
  /\ UNCHANGED asked
TraceSpec == TraceInit /\ [][TraceNext]_<<sessionVars, l>>
Explained == PrintT(ToJson(<<TLCGet("stats").diameter, Len(TheTrace)>>))
===============================================================================
