------------------------------ MODULE CaseFold ------------------------------
(* Upper case of a byte string in UTF-8: ASCII, Latin-1 letters, basic         *)
(* Cyrillic and dotless i (everything the generators use); other characters     *)
(* have no case here.                                                           *)
EXTENDS Integers, Sequences

RECURSIVE UpperFrom(_, _)
UpperFrom(b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET c == b[i]
             d == IF i < Len(b) THEN b[i + 1] ELSE 0
             two(x, y) == <<x, y>> \o UpperFrom(b, i + 2)
         IN CASE c >= 97 /\ c <= 122 -> <<c - 32>> \o UpperFrom(b, i + 1)
              [] c = 195 /\ d >= 160 /\ d <= 190 /\ d # 183 -> two(195, d - 32)
              [] c = 195 /\ d = 191 -> two(197, 184)
              [] c = 208 /\ d >= 176 /\ d <= 191 -> two(208, d - 32)
              [] c = 209 /\ d >= 128 /\ d <= 143 -> two(208, d + 32)
              [] c = 196 /\ d = 177 -> <<73>> \o UpperFrom(b, i + 2)
              [] OTHER -> <<c>> \o UpperFrom(b, i + 1)

UpperB(b) == UpperFrom(b, 1)
=============================================================================
