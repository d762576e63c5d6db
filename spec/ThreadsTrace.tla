------------------------------ MODULE ThreadsTrace ----------------------------
(* Recorded calls by several threads: when each began and ended, and what  *)
(* it said.  "alone": asked in a process that does nothing else; "change": *)
(* a thread changed an object while, or before, another one used it, and   *)
(* nothing ordered the two (recorded by ThreadSanitizer).                  *)
EXTENDS Threads, IOUtils

TheTrace == ndJsonDeserialize(IOEnv.TRACE)
TraceCalls == 1..TheTrace[1].calls
TraceThreads == 0..TheTrace[1].threads
VARIABLE l
E == TheTrace[l]
TraceInit == ThreadsInit /\ l = 2
TraceNext ==
  /\ l <= Len(TheTrace) /\ l' = l + 1
  /\ CASE E.event = "alone" -> running[0] = 0 /\ UNCHANGED running /\ E.answer # 0 /\ truth[E.call] \in {0, E.answer}
                               /\ truth' = [truth EXCEPT ![E.call] = E.answer] /\ UNCHANGED changed
       [] E.event = "begin" -> Begin(E.thread, E.call)
       [] E.event = "end"   -> End(E.thread, E.call, E.answer)
       [] E.event = "change" -> Change(E.thread, E.object)
  /\ UNCHANGED made
TraceSpec == TraceInit /\ [][TraceNext]_<<threadVars, l>>
Explained == PrintT(ToJson(<<TLCGet("stats").diameter, Len(TheTrace)>>))
===============================================================================
