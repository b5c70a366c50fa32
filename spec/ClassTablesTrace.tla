-------------------------- MODULE ClassTablesTrace --------------------------
(* Observation: p package, lo..hi a range of code points, c the class the   *)
(* Go code gives them, m the tables that list them.  $TABLES: for wb, gcb   *)
(* and every emoji property the ranges and classes of Unicode; code points  *)
(* not listed may have any (single) class.                                  *)
EXTENDS ClassTables, Chunked
Unicode == JsonDeserialize(IOEnv.TABLES)
RECURSIVE Search(_, _, _, _)
Search(T, c, a, b) == IF a >= b THEN a
                      ELSE LET m == (a + b) \div 2 IN IF T[m][2] >= c THEN Search(T, c, a, m) ELSE Search(T, c, m+1, b)
RECURSIVE Fits(_, _, _, _, _)
Fits(T, lo, hi, c, i) == \/ lo > hi \/ i > Len(T) \/ T[i][1] > hi
                         \/ T[i][3] = c /\ Fits(T, T[i][2] + 1, hi, c, i+1)
Is(T, o, c) == Fits(T, o.lo, o.hi, c, Search(T, o.lo, 1, Len(T) + 1))
Set(m) == {m[i] : i \in DOMAIN m}
Ok(o) == LET m == Set(o.m)
         IN /\ Legal(o.p, m) /\ o.c = First(o.p, m)
            /\ IF o.p \in Partition THEN Is(Unicode[o.p], o, o.c)
               ELSE \A t \in Set(Order.emoji) : Is(Unicode[t], o, IF t \in m THEN "Y" ELSE "N")
Rows(T, o) == LET i == Search(T, o.lo, 1, Len(T) + 1)
              IN [k \in i..(IF i + 2 < Len(T) THEN i + 2 ELSE Len(T)) |-> T[k]]
Why(o) == IF ~Legal(o.p, Set(o.m)) THEN <<"one table only">>
          ELSE IF o.c # First(o.p, Set(o.m)) THEN <<"class of first table", First(o.p, Set(o.m))>>
          ELSE IF o.p \in Partition THEN <<"Unicode:", Rows(Unicode[o.p], o)>>
          ELSE <<"Unicode:", [t \in Set(Order.emoji) |-> Rows(Unicode[t], o)]>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
