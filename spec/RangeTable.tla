------------------------------ MODULE RangeTable ------------------------------
(***************************************************************************)
(* Range tables of package unicode: sorted ranges of 16 bit code points,   *)
(* followed by ranges of larger ones, with the number of ranges within     *)
(* Latin-1.  Sets of code points are represented by their maximal ranges.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Latin,   \* last code point of Latin-1
          Wide     \* first code point that does not fit into 16 bits
RECURSIVE Merge(_)
(* ascending ranges, adjacent ones put together *)
Merge(s) == IF Len(s) < 2 THEN s
            ELSE IF s[2][1] = s[1][2] + 1 THEN Merge(<<<<s[1][1], s[2][2]>>>> \o SubSeq(s, 3, Len(s)))
            ELSE <<s[1]>> \o Merge(Tail(s))
Ascending(s) == /\ \A i \in DOMAIN s : s[i][1] <= s[i][2]
                /\ \A i \in 1..(Len(s) - 1) : s[i][2] < s[i+1][1]
Pair(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2]>>]
(* t: [r16, r32: sequences of <<lo, hi, stride>>, lat] *)
All(t) == Pair(t.r16 \o t.r32)
WellFormed(t) == /\ Ascending(All(t))
                 /\ \A i \in DOMAIN t.r16 : t.r16[i][2] < Wide
                 /\ \A i \in DOMAIN t.r32 : t.r32[i][2] >= Wide
                 /\ \A i \in DOMAIN t.r16 : t.r16[i][3] = 1
                 /\ \A i \in DOMAIN t.r32 : t.r32[i][3] = 1
                 /\ t.lat = Cardinality({i \in DOMAIN t.r16 : t.r16[i][2] <= Latin})
Denotes(t) == Merge(All(t))
Is(t, c) == \E i \in DOMAIN All(t) : All(t)[i][1] <= c /\ c <= All(t)[i][2]
=============================================================================
