-------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Calls made by several threads at once, each to objects of its own: a    *)
(* call begins and ends, other threads' calls begin and end in between,    *)
(* and its answer is the one the same call always has (cf. Session).  A    *)
(* thread changes its own objects only, whatever it shares with others     *)
(* (patterns, tables) stays as it is.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Calls, Threads,
          Length          \* calls made by each thread, in exploration

Shared == 0               \* what is not a thread's own

VARIABLES truth,          \* what is known: call -> answer (0: never answered)
          changed,        \* thread -> whose objects it changed
          running,        \* thread -> the call it is in (0: none)
          made            \* thread -> the calls it made

threadVars == <<truth, changed, running, made>>

ThreadsInit == truth = [c \in Calls |-> 0] /\ changed = [t \in Threads |-> {}] /\ running = [t \in Threads |-> 0] /\ made = [t \in Threads |-> <<>>]

Begin(t, c) == running[t] = 0 /\ running' = [running EXCEPT ![t] = c] /\ UNCHANGED <<truth, changed>>
Change(t, owner) ==
  /\ running[t] # 0 /\ owner = t
  /\ changed' = [changed EXCEPT ![t] = @ \cup {owner}] /\ UNCHANGED <<truth, running>>
End(t, c, a) ==
  /\ running[t] = c /\ running' = [running EXCEPT ![t] = 0]
  /\ a # 0 /\ truth[c] \in {0, a} /\ truth' = [truth EXCEPT ![c] = a] /\ UNCHANGED changed

\* exploration: every distribution of calls over the threads, and every way they can interleave
ThreadsNext ==
  \E t \in Threads :
    \/ Len(made[t]) < Length /\ \E c \in Calls : Begin(t, c) /\ made' = [made EXCEPT ![t] = Append(@, c)]
    \/ t \notin changed[t] /\ (\E owner \in Threads \cup {Shared} : Change(t, owner)) /\ UNCHANGED made
    \/ \E c \in Calls : End(t, c, IF truth[c] = 0 THEN c ELSE truth[c]) /\ UNCHANGED made
ThreadsSpec == ThreadsInit /\ [][ThreadsNext]_threadVars
LiveThreads == ThreadsSpec /\ WF_threadVars(ThreadsNext)

Quiet == \A t \in Threads : running[t] = 0 /\ Len(made[t]) = Length
EmitPlan == Quiet => PrintT(ToJson([t \in Threads |-> made[t]]))
NoMemory == [][\A c \in Calls : truth[c] # 0 => truth'[c] = truth[c]]_threadVars
\* what is said does not depend on what else is being asked
Steady == \A c \in Calls : truth[c] \in {0, c}
\* no thread changes what another one may use
Apart == \A t, u \in Threads : t # u => changed[t] \cap {u, Shared} = {}
AllEnd == <>Quiet
===============================================================================
