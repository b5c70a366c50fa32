---------------------------- MODULE ClassTablesMC ----------------------------
(* Tables are sorted ranges, set up one after the other and looked up in   *)
(* order with a binary search.  As long as they are a partition, the order *)
(* does not matter.                                                        *)
EXTENDS ClassTables, TLC
CONSTANTS Points,   \* 1..n
          Tables    \* 1..k, in order of look-up
VARIABLES in,       \* in[c]: tables that list c
          ranges    \* ranges[t]: sorted sequence of <<lo, hi>>
vars == <<in, ranges>>
Members(t) == {c \in Points : t \in in[c]}
RECURSIVE Build(_, _)
Build(S, c) == IF c > Cardinality(Points) THEN <<>>
               ELSE IF c \notin S THEN Build(S, c+1)
               ELSE LET hi == CHOOSE h \in Points : h >= c /\ (\A x \in c..h : x \in S) /\ h+1 \notin S
                    IN <<<<c, hi>>>> \o Build(S, hi + 2)
Init == in \in [Points -> SUBSET Tables] /\ ranges = [t \in Tables |-> <<>>]
Setup(t) == ranges[t] = <<>> /\ Members(t) # {} /\ ranges' = [ranges EXCEPT ![t] = Build(Members(t), 1)] /\ UNCHANGED in
Next == \E t \in Tables : Setup(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Search(_, _, _, _)
Search(r, c, a, b) == IF a >= b THEN FALSE
                      ELSE LET m == (a + b) \div 2
                           IN IF r[m][2] < c THEN Search(r, c, m + 1, b)
                              ELSE IF r[m][1] > c THEN Search(r, c, a, m) ELSE TRUE
Is(t, c) == Search(ranges[t], c, 1, Len(ranges[t]) + 1)
Done == \A t \in Tables : Members(t) # {} => ranges[t] # <<>>
LookUp(c, order) == LET hits == {i \in 1..Len(order) : Is(order[i], c)}
                    IN IF hits = {} THEN 0 ELSE order[CHOOSE i \in hits : \A j \in hits : i <= j]
Orders == {o \in [1..Cardinality(Tables) -> Tables] : \A i, j \in DOMAIN o : i # j => o[i] # o[j]}
Exact == Done => \A c \in Points, t \in Tables : Is(t, c) = (t \in in[c])
OrderMatters == Done => ((\A c \in Points : Cardinality(in[c]) <= 1)
                          <=> (\A c \in Points : \A o, q \in Orders : LookUp(c, o) = LookUp(c, q)))
GetsThere == <>Done
=============================================================================
