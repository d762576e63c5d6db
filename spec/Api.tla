---------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The library's values: date components and results, as the caller sees   *)
(* them.  Three variables of each type; a history of calls on them.        *)
(* (Chrono abstracts from these calls; here they are the transitions.)     *)
(***************************************************************************)
EXTENDS Results, TLC

Slots == 0..2
NewResult == [at |-> 0, len |-> 0, tags |-> {}, ranged |-> FALSE, from |-> Blank, to |-> Blank]

Order == <<"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset">>

VARIABLES parts,     \* Slots -> components
          res,       \* Slots -> result; its end may be filled before it is declared
          hist       \* the calls so far

apiVars == <<parts, res, hist>>

ApiInit == parts = [k \in Slots |-> Blank] /\ res = [k \in Slots |-> NewResult] /\ hist = <<>>

Called(op) == hist' = Append(hist, op)

\* ---- components ---------------------------------------------------------
PartsTo(k, p) == parts' = [parts EXCEPT ![k] = p] /\ UNCHANGED res
CSet(k, c, v)   == PartsTo(k, Know(parts[k], c, v))  /\ Called(<<"set", k, c, v>>)
CImply(k, c, v) == PartsTo(k, Imply(parts[k], c, v)) /\ Called(<<"imply", k, c, v>>)
CAssign(k, j)   == PartsTo(k, parts[j]) /\ Called(<<"assign", k, j>>)
CCopy(k, j)     == PartsTo(k, parts[j]) /\ Called(<<"copy", k, j>>)
\* made from known values: the components with a bit in the mask are certain
Made(m, v)      == [c \in Comps |-> LET n == CHOOSE j \in 1..8 : Order[j] = c IN IF (m \div (2 ^ (n - 1))) % 2 = 1 THEN <<TRUE, v + n - 1>> ELSE Absent]
CFrom(k, m, v)  == PartsTo(k, Made(m, v)) /\ Called(<<"from", k, m, v>>)
\* made from known values and an anchor: everything is the anchor's, whose months count from 0
Anchored(v)     == [c \in Comps |-> LET n == CHOOSE j \in 1..8 : Order[j] = c IN <<TRUE, v + n - 1 + (IF c = "month" THEN 1 ELSE 0)>>]
CAnchored(k, m, v) == PartsTo(k, Anchored(v)) /\ Called(<<"anchored", k, m, v>>)
\* implying, or asking for, something that is no component
CUnknown(k)     == PartsTo(k, parts[k]) /\ Called(<<"unknown", k>>)
CReset(k)       == PartsTo(k, Blank) /\ Called(<<"reset", k>>)

\* ---- results -------------------------------------------------------------
ResTo(k, r) == res' = [res EXCEPT ![k] = r] /\ UNCHANGED parts
\* a copy carries the end if there is one
CanCopy(r) == r.ranged \/ r.to = Blank
RNew(k, at, len) == ResTo(k, [NewResult EXCEPT !.at = at, !.len = len]) /\ Called(<<"new", k, at, len>>)
RReset(k)        == ResTo(k, NewResult) /\ Called(<<"reset", k>>)
RIndex(k, at)    == ResTo(k, [res[k] EXCEPT !.at = at]) /\ Called(<<"index", k, at>>)
RText(k, len)    == ResTo(k, [res[k] EXCEPT !.len = len]) /\ Called(<<"text", k, len>>)
RTag(k, n)       == ResTo(k, [res[k] EXCEPT !.tags = @ \cup {n}]) /\ Called(<<"tag", k, n>>)
REnd(k)          == ResTo(k, [res[k] EXCEPT !.ranged = TRUE]) /\ Called(<<"end", k>>)
RSet(k, w, c, v)   == ResTo(k, IF w = "start" THEN [res[k] EXCEPT !.from = Know(@, c, v)] ELSE [res[k] EXCEPT !.to = Know(@, c, v)])
                      /\ Called(<<"set", k, w, c, v>>)
RImply(k, w, c, v) == ResTo(k, IF w = "start" THEN [res[k] EXCEPT !.from = Imply(@, c, v)] ELSE [res[k] EXCEPT !.to = Imply(@, c, v)])
                      /\ Called(<<"imply", k, w, c, v>>)
RTake(how, k, j) == CanCopy(res[j]) /\ ResTo(k, res[j]) /\ Called(<<how, k, j>>)    \* assign, copy, list

\* ---- what the caller sees ------------------------------------------------
SeeParts(p) == [k \in 1..8 |-> <<IF Certain(p, Order[k]) THEN 1 ELSE 0, Val(p, Order[k])>>]
SeeDate(p)  == <<SeeParts(p), IF Possible(p) THEN 1 ELSE 0, IF Possible(p) THEN Instant(p) ELSE <<>> >>
RECURSIVE Mask(_)
Mask(tags) == IF tags = {} THEN 0 ELSE LET n == CHOOSE t \in tags : TRUE IN (2 ^ n) + Mask(tags \ {n})
HasDates(r) == Possible(r.from) /\ (r.ranged => Possible(r.to))
SeeResult(r) == << <<r.at, r.len, Mask(r.tags), IF r.ranged THEN 1 ELSE 0, SeeParts(r.from), SeeParts(IF r.ranged THEN r.to ELSE Blank)>>,
                   IF HasDates(r) THEN 1 ELSE 0, IF r.at = 0 /\ r.len = 0 THEN 1 ELSE 0>>
SeeAllParts   == [k \in 1..3 |-> SeeDate(parts[k - 1])]
SeeAllResults == [k \in 1..3 |-> SeeResult(res[k - 1])]

\* ---- guarantees, over the history (P01, P02) ----------------------------
LastOf(P(_), n) == LET ks == {k \in 1..n : P(hist[k])} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
Is(op, name, k) == op[1] = name /\ op[2] = k

\* the value last set, or else the value last implied, or else 0 (for an object that was never overwritten as a whole)
Untouched(k) == \A n \in 1..Len(hist) : hist[n][1] \in {"assign", "copy", "reset", "from", "anchored"} => hist[n][2] # k
LastWins ==
  \A k \in Slots : Untouched(k) => \A c \in Comps :
    LET set == LastOf(LAMBDA op : Is(op, "set", k) /\ op[3] = c, Len(hist))
        imp == LastOf(LAMBDA op : Is(op, "imply", k) /\ op[3] = c, Len(hist))
    IN parts[k][c] = (IF set > 0 THEN <<TRUE, hist[set][4]>> ELSE IF imp > 0 THEN <<FALSE, hist[imp][4]>> ELSE Absent)

\* a call on one object shows in no other
OnlyItsObject == [][\A k \in Slots : hist'[Len(hist')][2] # k => parts'[k] = parts[k] /\ res'[k] = res[k]]_apiVars
\* what was certain stays certain, unless the object is overwritten as a whole
CertainForGood ==
  [][hist'[Len(hist')][1] \in {"set", "imply"} =>
       \A k \in Slots, c \in Comps : Certain(parts[k], c) => Certain(parts'[k], c)]_apiVars
\* a copy equals its original
CopiesAgree ==
  [][LET op == hist'[Len(hist')] IN op[1] \in {"assign", "copy", "list"} =>
       parts'[op[2]] = parts[op[3]] \/ SeeResult(res'[op[2]]) = SeeResult(res[op[3]])]_apiVars
===============================================================================
