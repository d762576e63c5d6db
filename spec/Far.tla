--------------------------------- MODULE Far ---------------------------------
(***************************************************************************)
(* Texts too long to be scanned here: many copies of a unit before a text. *)
(* What is found in three copies says what is found in n of them, if the   *)
(* expressions of the first two copies are alike.                          *)
(***************************************************************************)
EXTENDS Chrono

Shift(x, d) == <<x[1] + d>> \o Tail(x)

\* S: what is found in three copies of a unit (of d characters) and the text
Stretched(S, d, n) ==
  LET a == Len(SelectSeq(S, LAMBDA x : x[1] < d))               \* so many in a copy
      m == a * (n - 1)
  IN [k \in 1..(m + Len(S) - (2 * a)) |->
        IF k <= m THEN Shift(S[((k - 1) % a) + 1], ((k - 1) \div a) * d)
        ELSE Shift(S[(k - m) + (2 * a)], (n - 3) * d)]

Alike(S, d) ==
  LET a == Len(SelectSeq(S, LAMBDA x : x[1] < d)) IN
    Len(S) >= 2 * a /\ \A k \in 1..a : S[a + k] = Shift(S[k], d)

RECURSIVE Copies(_, _)
Copies(u, n) == IF n = 0 THEN "" ELSE u \o Copies(u, n - 1)

\* so it is, as far as it can be looked at
StretchLaw(u, t, p, r, n) ==
  LET Of(k) == EncAll(Parse(p, Occurrences(p, ToLower(Copies(u, k) \o t)), r))
      S == Of(3)
  IN Alike(S, Len(u)) => Of(n) = Stretched(S, Len(u), n)
===============================================================================
