---------------------------- MODULE RangeTableMC ----------------------------
(* A collector of ranges: adjacent ranges are put together; in the end they *)
(* are written as a table.  Look-ups decide on the last 16 bit code point   *)
(* listed, and those of Latin-1 characters may be cut off there.            *)
EXTENDS RangeTable, TLC
CONSTANT Max
VARIABLES given,   \* the ranges handed over
          coll,    \* the ranges collected
          tab      \* the table written
vars == <<given, coll, tab>>
None == [r16 |-> <<>>, r32 |-> <<>>, lat |-> -1]
Init == given = <<>> /\ coll = <<>> /\ tab = None
Next16 == IF given = <<>> THEN 0 ELSE given[Len(given)][2] + 1
Append1(l, h) == /\ tab = None /\ given' = Append(given, <<l, h>>)
                 /\ coll' = IF coll # <<>> /\ l = coll[Len(coll)][2] + 1
                            THEN [coll EXCEPT ![Len(coll)] = <<@[1], h>>]
                            ELSE Append(coll, <<l, h>>)
                 /\ UNCHANGED tab
Stride(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2], 1>>]
Write == /\ tab = None /\ UNCHANGED <<given, coll>>
         /\ LET n == Cardinality({i \in DOMAIN coll : coll[i][2] < Wide})
            IN tab' = [r16 |-> Stride(SubSeq(coll, 1, n)), r32 |-> Stride(SubSeq(coll, n + 1, Len(coll))),
                       lat |-> Cardinality({i \in DOMAIN coll : coll[i][2] <= Latin})]
Next == Write \/ \E l \in Next16..Max, h \in Next16..Max : l <= h /\ Append1(l, h)
Spec == Init /\ [][Next]_vars
Hit(s, c) == \E i \in DOMAIN s : s[i][1] <= c /\ c <= s[i][2]
(* as package unicode looks up *)
LookUp(c) == IF tab.r16 # <<>> /\ c <= tab.r16[Len(tab.r16)][2] THEN Hit(tab.r16, c)
             ELSE tab.r32 # <<>> /\ c >= tab.r32[1][1] /\ Hit(tab.r32, c)
NotLatin(c) == c > Latin => (Hit(SubSeq(tab.r16, tab.lat + 1, Len(tab.r16)), c) = Hit(tab.r16, c))
Member(c) == \E i \in DOMAIN given : given[i][1] <= c /\ c <= given[i][2]
Exact == tab # None => /\ WellFormed(tab) /\ Denotes(tab) = Merge(given)
                       /\ \A c \in 0..Max : LookUp(c) = Member(c) /\ Is(tab, c) = Member(c) /\ NotLatin(c)
=============================================================================
