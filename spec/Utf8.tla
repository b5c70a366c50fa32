-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 (Unicode 3.9, table 3-7) over sequences of bytes.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

At(b, i)       == IF i \in 1..Len(b) THEN b[i] ELSE 256      \* 256: no byte
In(x, lo, hi)  == lo <= x /\ x <= hi
Cont(b, i)     == In(At(b, i), 128, 191)
Conts(b, i, n) == \A j \in i..i+n-1 : Cont(b, j)

(* length of the legal encoding that starts at i, or 0 *)
LegalLen(b, i) ==
  LET c == At(b, i)  d == At(b, i+1)
  IN CASE c <= 127                                            -> 1
       [] In(c, 194, 223) /\ Cont(b, i+1)                      -> 2
       [] c = 224 /\ In(d, 160, 191) /\ Conts(b, i+2, 1)       -> 3
       [] In(c, 225, 236) /\ Conts(b, i+1, 2)                  -> 3
       [] c = 237 /\ In(d, 128, 159) /\ Conts(b, i+2, 1)       -> 3
       [] In(c, 238, 239) /\ Conts(b, i+1, 2)                  -> 3
       [] c = 240 /\ In(d, 144, 191) /\ Conts(b, i+2, 2)       -> 4
       [] In(c, 241, 243) /\ Conts(b, i+1, 3)                  -> 4
       [] c = 244 /\ In(d, 128, 143) /\ Conts(b, i+2, 2)       -> 4
       [] OTHER                                                -> 0

(* number of bytes in front of the first legal encoding, or -1 *)
RECURSIVE SkipFrom(_, _)
SkipFrom(b, i) == IF i > Len(b) THEN 0-1 ELSE IF LegalLen(b, i) > 0 THEN i-1 ELSE SkipFrom(b, i+1)
FirstLegal(b)  == SkipFrom(b, 1)

(* lengths of the legal encodings from i on, up to the first illegal byte *)
RECURSIVE LensFrom(_, _)
LensFrom(b, i) == IF LegalLen(b, i) = 0 THEN <<>> ELSE <<LegalLen(b, i)>> \o LensFrom(b, i + LegalLen(b, i))

(* another formulation: the value encoded, its shortest form, its range *)
Shape(c) == CASE c <= 127 -> 1 [] In(c, 192, 223) -> 2 [] In(c, 224, 239) -> 3 [] In(c, 240, 247) -> 4 [] OTHER -> 0
Value(b, i) == LET n == Shape(At(b, i))
                   x(j) == At(b, i+j) % 64
               IN CASE n = 1 -> At(b, i)
                    [] n = 2 -> (At(b, i) % 32) * 64 + x(1)
                    [] n = 3 -> ((At(b, i) % 16) * 64 + x(1)) * 64 + x(2)
                    [] n = 4 -> (((At(b, i) % 8) * 64 + x(1)) * 64 + x(2)) * 64 + x(3)
LegalLen2(b, i) ==
  LET n == Shape(At(b, i))
  IN IF n = 0 \/ ~Conts(b, i+1, n-1) THEN 0
     ELSE LET v == Value(b, i)
          IN IF \/ (n = 2 /\ v < 128) \/ (n = 3 /\ v < 2048) \/ (n = 4 /\ v < 65536)
                \/ In(v, 55296, 57343) \/ v > 1114111
             THEN 0 ELSE n
=============================================================================
