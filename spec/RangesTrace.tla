----------------------------- MODULE RangesTrace -----------------------------
(***************************************************************************)
(* Tables of classes.  Observation: <<lo, hi, class>> - the Go code gives  *)
(* the code points lo..hi this class.  $TABLE: the table asked for, the    *)
(* same way; code points it does not list may have any class ($FREE = 1)   *)
(* or may not turn up ($FREE = 0).                                         *)
(* A range of the Go code is right if its code points are covered by       *)
(* ranges of the table with this class (or by none); the driver demands    *)
(* that the ranges of the Go code cover all code points.                   *)
(***************************************************************************)
EXTENDS Chunked, Integers, SequencesExt
Table == ndJsonDeserialize(IOEnv.TABLE)   \* sorted
(* number of the first range of the table that ends at or after c *)
RECURSIVE Search(_, _, _)
Search(c, a, b) == IF a >= b THEN a
                   ELSE LET m == (a + b) \div 2 IN IF Table[m][2] >= c THEN Search(c, a, m) ELSE Search(c, m+1, b)
RECURSIVE Fits(_, _, _, _)
(* lo..hi has class c, seen from range i of the table on *)
Fits(lo, hi, c, i) ==
  IF lo > hi THEN TRUE
  ELSE IF i > Len(Table) \/ Table[i][1] > hi THEN IOEnv.FREE = "1"
  ELSE IF Table[i][1] > lo /\ IOEnv.FREE # "1" THEN FALSE
  ELSE Table[i][3] = c /\ Fits(Table[i][2] + 1, hi, c, i+1)
Ok(o)  == Fits(o[1], o[2], o[3], Search(o[1], 1, Len(Table) + 1))
Why(o) == LET i == Search(o[1], 1, Len(Table) + 1)
          IN [k \in i..(IF i + 3 < Len(Table) THEN i + 3 ELSE Len(Table)) |-> Table[k]]
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
