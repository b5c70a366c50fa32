------------------------------- MODULE Utf8MC -------------------------------
(* An automaton reads bytes one after the other and stops as soon as a      *)
(* legal encoding is complete.                                              *)
EXTENDS Utf8, Integers, TLC
CONSTANTS Bytes, MaxLen
VARIABLES b,     \* bytes read
          q,     \* state of the automaton
          from,  \* number of bytes in front of the encoding being read
          found
vars == <<b, q, from, found>>
Step(s, x) ==
  CASE s = "0" -> CASE x <= 127 -> "acc" [] In(x, 194, 223) -> "c1" [] x = 224 -> "e0" [] x = 237 -> "ed"
                    [] In(x, 225, 236) \/ In(x, 238, 239) -> "c2" [] x = 240 -> "f0"
                    [] In(x, 241, 243) -> "c3" [] x = 244 -> "f4" [] OTHER -> "err"
    [] s = "c1" -> IF In(x, 128, 191) THEN "acc" ELSE "err"
    [] s = "c2" -> IF In(x, 128, 191) THEN "c1" ELSE "err"
    [] s = "c3" -> IF In(x, 128, 191) THEN "c2" ELSE "err"
    [] s = "e0" -> IF In(x, 160, 191) THEN "c1" ELSE "err"
    [] s = "ed" -> IF In(x, 128, 159) THEN "c1" ELSE "err"
    [] s = "f0" -> IF In(x, 144, 191) THEN "c2" ELSE "err"
    [] s = "f4" -> IF In(x, 128, 143) THEN "c2" ELSE "err"
Init == b = <<>> /\ q = "0" /\ from = 0 /\ found = FALSE
Read(x) == /\ Len(b) < MaxLen /\ ~found
           /\ b' = Append(b, x)
           /\ LET s == Step(q, x)
                  r == IF q = "0" THEN "err" ELSE Step("0", x)   \* after an error: start again with x
              IN  IF s # "err" THEN q' = s /\ from' = from
                  ELSE IF r # "err" THEN q' = r /\ from' = Len(b)
                  ELSE q' = "0" /\ from' = Len(b) + 1
           /\ found' = (q' = "acc")
Next == \E x \in Bytes : Read(x)
Spec == Init /\ [][Next]_vars
SameLegal == \A i \in 1..Len(b) : LegalLen(b, i) = LegalLen2(b, i)
Found     == found <=> FirstLegal(b) >= 0
Start     == found => from = FirstLegal(b)
Nothing   == ~found => \A i \in 1..Len(b) : LegalLen(b, i) = 0
(* every code point is found again *)
Encode(v) == IF v < 128 THEN <<v>>
             ELSE IF v < 2048 THEN <<192 + (v \div 64), 128 + (v % 64)>>
             ELSE IF v < 65536 THEN <<224 + (v \div 4096), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
             ELSE <<240 + (v \div 262144), 128 + ((v \div 4096) % 64), 128 + ((v \div 64) % 64), 128 + (v % 64)>>
Interesting == UNION {(c-2)..(c+2) : c \in {128, 2048, 4096, 53248, 55296, 57344, 65536, 262144, 1048576, 1114111}}
Roundtrip == \A v \in Interesting :
               LET legal == v <= 1114111 /\ ~In(v, 55296, 57343)
               IN LegalLen(Encode(v), 1) = (IF legal THEN Len(Encode(v)) ELSE 0)
ASSUME Roundtrip
=============================================================================
