-------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session: calls made one after the other to the same process.  Nothing *)
(* is known about an answer before the first time it is given; afterwards  *)
(* the same call has the same answer, whatever was asked in between.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Calls,      \* 1..n
          Length      \* of the sessions that are explored

VARIABLES truth,      \* what is known: call -> answer (0: not asked yet)
          asked       \* the calls so far

sessionVars == <<truth, asked>>

SessionInit == truth = [c \in Calls |-> 0] /\ asked = <<>>

Ask(c, a) ==
  /\ a # 0 /\ truth[c] \in {0, a}
  /\ truth' = [truth EXCEPT ![c] = a]

\* exploration: every session of a given length (answers are not looked at: any will do)
SessionNext == Len(asked) < Length /\ \E c \in Calls : Ask(c, IF truth[c] = 0 THEN c ELSE truth[c]) /\ asked' = Append(asked, c)
SessionSpec == SessionInit /\ [][SessionNext]_sessionVars
EmitSession == Len(asked) = Length => PrintT(ToJson(asked))
\* an answer, once given, is for good
NoMemory == [][\A c \in Calls : truth[c] # 0 => truth'[c] = truth[c]]_sessionVars
===============================================================================
