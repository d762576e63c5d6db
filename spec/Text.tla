-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts.  A text is a TLA+ string of bytes (the characters 0 to 255 stand *)
(* for them); every computation on it works on the sequence of their       *)
(* codes, because TLC compares integers faster than strings.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

\* There is no way to write all of them in TLA+.  The file also has what TLC makes of those from
\* 128 on when it reads a state back from its queue on disk (it sign-extends them), and the character 0.
LOCAL Bytes == JsonDeserialize("bytes.json")

CodeTable == [ch \in {Bytes[k] : k \in 1..384} |->
               LET k == CHOOSE k \in 1..384 : Bytes[k] = ch IN IF k <= 255 THEN k ELSE IF k = 384 THEN 0 ELSE k - 128]

Char(code) == Bytes[IF code = 0 THEN 384 ELSE code]

Codes(str) == [k \in 1..Len(str) |-> CodeTable[SubSeq(str, k, k)]]

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
IsWord(c)  == IsLower(c) \/ IsDigit(c) \/ IsUpper(c) \/ c = 95

LowerCode(c) == IF IsUpper(c) THEN c + 32 ELSE c
UpperCode(c) == IF IsLower(c) THEN c - 32 ELSE c

RECURSIVE Spell(_, _, _)
Spell(cs, i, j) == IF i > j THEN "" ELSE Char(cs[i]) \o Spell(cs, i + 1, j)

StrOf(cs) == Spell(cs, 1, Len(cs))

\* the text, whatever TLC made of it
Same(str) == StrOf(Codes(str))
Ascii(str) == \A k \in 1..Len(str) : CodeTable[SubSeq(str, k, k)] < 128

ToLower(str) == LET cs == Codes(str) IN StrOf([k \in 1..Len(cs) |-> LowerCode(cs[k])])
ToUpper(str) == LET cs == Codes(str) IN StrOf([k \in 1..Len(cs) |-> UpperCode(cs[k])])

Sub(str, start, len) == IF len = 0 THEN "" ELSE SubSeq(str, start, start + len - 1)

\* characters beyond ASCII, as their bytes in UTF-8
FullColon == StrOf(<<239, 188, 154>>)
EnDash    == StrOf(<<226, 128, 147>>)
WaveDash  == StrOf(<<227, 128, 156>>)
Acute     == StrOf(<<195, 169>>)
HardBlank == StrOf(<<194, 160>>)
Apostrophe == StrOf(<<226, 128, 153>>)

\* does w occur in str?
Contains(str, w) ==
  \E k \in 1..(Len(str) - Len(w) + 1) : SubSeq(str, k, k + Len(w) - 1) = w

StartsWith(str, w) == Len(str) >= Len(w) /\ SubSeq(str, 1, Len(w)) = w

(***************************************************************************)
(* Decimal numbers.  NumOf yields -1 for a number that does not fit an     *)
(* int (the library then has no such number either).                       *)
(***************************************************************************)
MaxInt == 2147483647
NoNum  == -1

RECURSIVE NumFrom(_, _, _)
NumFrom(cs, k, acc) ==
  IF k > Len(cs) THEN acc
  ELSE LET d == cs[k] - 48 IN
       IF acc > 214748364 \/ (acc = 214748364 /\ d > 7) THEN NoNum
       ELSE NumFrom(cs, k + 1, acc * 10 + d)

NumOf(str) == NumFrom(Codes(str), 1, 0)

IsNumber(str) == Len(str) > 0 /\ \A k \in 1..Len(str) : IsDigit(CodeTable[SubSeq(str, k, k)])
=============================================================================
