----------------------------- MODULE ShapingTrace -----------------------------
(* Tables for shaping.  Observation with t = "": the code points lo..hi of  *)
(* data file p are listed by tables m; otherwise table t of p, as in        *)
(* RangeTable.  $TABLES: ranges and categories of Unicode 13 for arab,      *)
(* insc and inpc ("none": no table has to list them); code points not       *)
(* listed may be member of any single table.                                *)
EXTENDS RangeTable, Chunked
Unicode == JsonDeserialize(IOEnv.TABLES)
RECURSIVE Search(_, _, _, _)
Search(T, c, a, b) == IF a >= b THEN a
                      ELSE LET m == (a + b) \div 2 IN IF T[m][2] >= c THEN Search(T, c, a, m) ELSE Search(T, c, m+1, b)
RECURSIVE Fits(_, _, _, _, _)
Fits(T, lo, hi, c, i) == \/ lo > hi \/ i > Len(T) \/ T[i][1] > hi
                         \/ T[i][3] = c /\ Fits(T, T[i][2] + 1, hi, c, i+1)
At(o) == Search(Unicode[o.p], o.lo, 1, Len(Unicode[o.p]) + 1)
Ok(o) == IF o.t # "" THEN WellFormed([r16 |-> o.r16, r32 |-> o.r32, lat |-> o.lat])
         ELSE Len(o.m) <= 1 /\ Fits(Unicode[o.p], o.lo, o.hi, IF o.m = <<>> THEN "none" ELSE o.m[1], At(o))
Why(o) == IF o.t # "" THEN <<"a well-formed range table">>
          ELSE LET T == Unicode[o.p] IN [k \in At(o)..(IF At(o) + 2 < Len(T) THEN At(o) + 2 ELSE Len(T)) |-> T[k]]
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
