-------------------------------- MODULE ApiTrace ------------------------------
(* Is a recorded history of calls one the specification allows?            *)
EXTENDS Api, Json, IOUtils
TheTrace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == TheTrace[l]
Op == E.op
Step ==
  /\ l <= Len(TheTrace) /\ l' = l + 1
  /\ IF E.on = "parts"
     THEN /\ CASE Op[1] = "set"    -> CSet(Op[2], Op[3], Op[4])
               [] Op[1] = "imply"  -> CImply(Op[2], Op[3], Op[4])
               [] Op[1] = "assign" -> CAssign(Op[2], Op[3])
               [] Op[1] = "copy"   -> CCopy(Op[2], Op[3])
               [] Op[1] = "reset"  -> CReset(Op[2])
               [] Op[1] = "unknown" -> CUnknown(Op[2])
               [] Op[1] = "anchored" -> CAnchored(Op[2], Op[3], Op[4])
               [] Op[1] = "from"   -> CFrom(Op[2], Op[3], Op[4])
          /\ [k \in 1..3 |-> SeeDate(parts'[k - 1])] = E.seen
     ELSE /\ CASE Op[1] = "set"    -> RSet(Op[2], Op[3], Op[4], Op[5])
               [] Op[1] = "imply"  -> RImply(Op[2], Op[3], Op[4], Op[5])
               [] Op[1] = "new"    -> RNew(Op[2], Op[3], Op[4])
               [] Op[1] = "reset"  -> RReset(Op[2])
               [] Op[1] = "index"  -> RIndex(Op[2], Op[3])
               [] Op[1] = "text"   -> RText(Op[2], Op[3])
               [] Op[1] = "tag"    -> RTag(Op[2], Op[3])
               [] Op[1] = "end"    -> REnd(Op[2])
               [] Op[1] \in {"assign", "copy", "list"} -> RTake(Op[1], Op[2], Op[3])
          /\ [k \in 1..3 |-> SeeResult(res'[k - 1])] = E.seen
\* the history is not needed here
Forget == hist' = <<>>
TraceInit == ApiInit /\ l = 2                  \* line 1 is a heading
TraceNext == Step
TraceSpec == TraceInit /\ [][TraceNext]_<<apiVars, l>>
Explained == PrintT(ToJson(<<TLCGet("stats").diameter, Len(TheTrace)>>))
===============================================================================
