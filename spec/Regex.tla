-------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Grammars of expressions and how they are looked for in a text.          *)
(*                                                                         *)
(* A grammar is a tree.  Match is a backtracking matcher: it explores the  *)
(* alternatives of a node in order (greedy repetitions longest first) and  *)
(* answers the first way of matching the whole grammar, which is what      *)
(* decides the extent of an expression and of each of its parts.           *)
(***************************************************************************)
EXTENDS Text

\* ---- constructors ------------------------------------------------------
L(str)      == <<"lit", Codes(str), Len(str)>>
C(class)    == <<"cls", class>>
Many(class, lo, hi)     == <<"many", class, lo, hi>>
ManyLazy(class, lo, hi) == <<"lazy", class, lo, hi>>
Cat(nodes)  == <<"cat", nodes>>
Alt(nodes)  == <<"alt", nodes>>
Words(strs) == <<"alt", [k \in 1..Len(strs) |-> L(strs[k])]>>
Opt(node)     == <<"rep", node, 0, 1>>
OptLazy(node) == <<"optlazy", node>>
Rep(node, lo, hi) == <<"rep", node, lo, hi>>
Cap(g, node)  == <<"cap", g, node>>
Ahead(node)    == <<"ahead", node>>
NotAhead(node) == <<"nahead", node>>
WB  == <<"wb">>
BOL == <<"bol">>
EOL == <<"eol">>

ACCEPT == <<"accept">>
Done   == <<ACCEPT, <<>>>>

NoMatch == <<>>

\* ---- character classes -------------------------------------------------
InClass(class, c) ==
  CASE class = "s" -> IsSpace(c)
    [] class = "d" -> IsDigit(c)
    [] class = "w" -> IsWord(c)
    [] class = "W" -> ~IsWord(c)
    [] class = "D" -> ~IsDigit(c)
    [] class = "o" -> ~IsWord(c) /\ ~IsSpace(c)     \* neither word nor space
    [] class = "Alpha" -> IsLower(c) \/ IsUpper(c)
    [] class = "PlusDash"  -> c \in {43, 45}
    [] class = "CommaDash" -> c \in {44, 45}
    [] class = "SpaceDash" -> c \in {32, 45}

(***************************************************************************)
(* The scanned text: its codes, its length, and the position b before      *)
(* which nothing is visible (scanning resumes behind each match as if the  *)
(* text started there).                                                    *)
(***************************************************************************)
Scan(str) == [s |-> str, c |-> Codes(str), n |-> Len(str), b |-> 0]

WordAt(S, i) == i > S.b /\ i <= S.n /\ IsWord(S.c[i])
Boundary(S, i) == WordAt(S, i - 1) # WordAt(S, i)

RECURSIVE Run(_, _, _, _)
\* number of characters of the class at i, at most max
Run(S, class, i, max) ==
  IF max = 0 \/ i > S.n THEN 0
  ELSE IF InClass(class, S.c[i]) THEN 1 + Run(S, class, i + 1, max - 1) ELSE 0

RECURSIVE LitAt(_, _, _, _)
LitAt(S, w, k, i) ==
  \/ k > Len(w)
  \/ S.c[i] = w[k] /\ LitAt(S, w, k + 1, i + 1)

(***************************************************************************)
(* Match(S, k, i, caps): continue at position i with the nodes in k (a     *)
(* linked list); yields <<end, caps>> or NoMatch.                          *)
(***************************************************************************)
RECURSIVE Match(_, _, _, _), FirstAlt(_, _, _, _, _, _), Longest(_, _, _, _, _, _), Shortest(_, _, _, _, _, _)

Match(S, k, i, caps) ==
  LET n == k[1]  rest == k[2] IN
  CASE n[1] = "lit" ->
         IF i + n[3] - 1 <= S.n /\ LitAt(S, n[2], 1, i)
         THEN Match(S, rest, i + n[3], caps) ELSE NoMatch
    [] n[1] = "many" ->
         LET r == Run(S, n[2], i, n[4]) IN Longest(S, rest, i, caps, r, n[3])
    [] n[1] = "cat" ->
         LET Push[m \in 1..(Len(n[2]) + 1)] ==
               IF m > Len(n[2]) THEN rest ELSE <<n[2][m], Push[m + 1]>>
         IN Match(S, Push[1], i, caps)
    [] n[1] = "alt" -> FirstAlt(S, n[2], 1, rest, i, caps)
    [] n[1] = "rep" ->
         IF n[3] > 0
         THEN Match(S, <<n[2], <<<<"rep", n[2], n[3] - 1, n[4] - 1>>, rest>>>>, i, caps)
         ELSE IF n[4] = 0 THEN Match(S, rest, i, caps)
         ELSE LET more == IF n[4] = 1 THEN rest ELSE <<<<"rep", n[2], 0, n[4] - 1>>, rest>>
                  r == Match(S, <<n[2], more>>, i, caps)
              IN IF r # NoMatch THEN r ELSE Match(S, rest, i, caps)
    [] n[1] = "cap" -> Match(S, <<n[3], <<<<"close", n[2], i>>, rest>>>>, i, caps)
    [] n[1] = "close" -> Match(S, rest, i, [caps EXCEPT ![n[2]] = <<n[3], i - n[3]>>])
    [] n[1] = "wb" -> IF Boundary(S, i) THEN Match(S, rest, i, caps) ELSE NoMatch
    [] n[1] = "accept" -> <<i, caps>>
    [] n[1] = "cls" ->
         IF i <= S.n /\ InClass(n[2], S.c[i]) THEN Match(S, rest, i + 1, caps) ELSE NoMatch
    [] n[1] = "ahead" ->
         IF Match(S, <<n[2], Done>>, i, caps) # NoMatch THEN Match(S, rest, i, caps) ELSE NoMatch
    [] n[1] = "nahead" ->
         IF Match(S, <<n[2], Done>>, i, caps) = NoMatch THEN Match(S, rest, i, caps) ELSE NoMatch
    [] n[1] = "optlazy" ->
         LET r == Match(S, rest, i, caps)
         IN IF r # NoMatch THEN r ELSE Match(S, <<n[2], rest>>, i, caps)
    [] n[1] = "lazy" ->
         LET r == Run(S, n[2], i, n[4]) IN Shortest(S, rest, i, caps, n[3], r)
    [] n[1] = "bol" -> IF i = S.b + 1 THEN Match(S, rest, i, caps) ELSE NoMatch
    [] n[1] = "eol" -> IF i = S.n + 1 THEN Match(S, rest, i, caps) ELSE NoMatch

FirstAlt(S, alts, a, rest, i, caps) ==
  IF a > Len(alts) THEN NoMatch
  ELSE LET r == Match(S, <<alts[a], rest>>, i, caps)
       IN IF r # NoMatch THEN r ELSE FirstAlt(S, alts, a + 1, rest, i, caps)

Longest(S, rest, i, caps, r, lo) ==
  IF r < lo THEN NoMatch
  ELSE LET m == Match(S, rest, i + r, caps)
       IN IF m # NoMatch THEN m ELSE Longest(S, rest, i, caps, r - 1, lo)

Shortest(S, rest, i, caps, r, hi) ==
  IF r > hi THEN NoMatch
  ELSE LET m == Match(S, rest, i + r, caps)
       IN IF m # NoMatch THEN m ELSE Shortest(S, rest, i, caps, r + 1, hi)

(***************************************************************************)
(* Which characters can a match start with?  (Only an aid for Find: a      *)
(* start position whose character is not in that set cannot match.)        *)
(***************************************************************************)
RECURSIVE Nullable(_), Firsts(_), FirstsSeq(_, _)
Nullable(n) ==
  CASE n[1] = "lit" -> n[3] = 0
    [] n[1] = "cls" -> FALSE
    [] n[1] \in {"many", "lazy"} -> n[3] = 0
    [] n[1] = "cat" -> \A m \in 1..Len(n[2]) : Nullable(n[2][m])
    [] n[1] = "alt" -> \E m \in 1..Len(n[2]) : Nullable(n[2][m])
    [] n[1] = "rep" -> n[3] = 0 \/ Nullable(n[2])
    [] n[1] = "cap" -> Nullable(n[3])
    [] OTHER -> TRUE

LOCAL AllCodes == 0..255
Firsts(n) ==
  CASE n[1] = "lit" -> IF n[3] = 0 THEN {} ELSE {n[2][1]}
    [] n[1] \in {"cls", "many", "lazy"} -> {c \in AllCodes : InClass(n[2], c)}
    [] n[1] = "cat" -> FirstsSeq(n[2], 1)
    [] n[1] = "alt" -> UNION {Firsts(n[2][m]) : m \in 1..Len(n[2])}
    [] n[1] \in {"rep", "optlazy"} -> Firsts(n[2])
    [] n[1] = "cap" -> Firsts(n[3])
    [] OTHER -> {}

FirstsSeq(nodes, m) ==
  IF m > Len(nodes) THEN {}
  ELSE Firsts(nodes[m]) \cup (IF Nullable(nodes[m]) THEN FirstsSeq(nodes, m + 1) ELSE {})

\* a grammar ready for searching: the tree, the number of its groups, its start characters
Grammar(tree, groups) ==
  [tree |-> <<tree, Done>>, groups |-> groups,
   start |-> LET F == Firsts(tree) IN [c \in AllCodes |-> c \in F]]

(***************************************************************************)
(* Find: the leftmost match of G at or after position i.                   *)
(* <<start, end, caps>> or NoMatch (none of our grammars matches "").      *)
(***************************************************************************)
NoGroup == <<0, 0>>

RECURSIVE Find(_, _, _)
Find(S, G, i) ==
  IF i > S.n THEN NoMatch
  ELSE LET m == IF G.start[S.c[i]]
                THEN Match(S, G.tree, i, [g \in 1..G.groups |-> NoGroup])
                ELSE NoMatch
       IN IF m # NoMatch THEN <<i, m[1], m[2]>> ELSE Find(S, G, i + 1)

(***************************************************************************)
(* All matches, each search resuming behind the previous match.  A match:  *)
(* at = 0-based index, len, str = matched text, g = text of each group.    *)
(***************************************************************************)
Occurrence(S, m) ==
  [at   |-> m[1] - 1,
   len  |-> m[2] - m[1],
   str  |-> Sub(S.s, m[1], m[2] - m[1]),
   g    |-> [k \in 1..Len(m[3]) |-> Sub(S.s, m[3][k][1], m[3][k][2])]]

RECURSIVE FindAll(_, _)
FindAll(S, G) ==
  LET m == Find(S, G, S.b + 1) IN
  IF m = NoMatch THEN <<>>
  ELSE <<Occurrence(S, m)>> \o FindAll([S EXCEPT !.b = m[2] - 1], G)

\* does G match somewhere in str / the whole of str?
Occurs(str, G) == LET S == Scan(str) IN
  \E i \in 1..(S.n + 1) : Match(S, G.tree, i, [g \in 1..G.groups |-> NoGroup]) # NoMatch

MatchesWhole(str, tree, groups) ==
  LET S == Scan(str) IN
  Match(S, <<tree, <<EOL, Done>>>>, 1, [g \in 1..groups |-> NoGroup])
=============================================================================
