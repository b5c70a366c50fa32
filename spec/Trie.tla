-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* A set of words and their prefixes; every prefix has a position of its   *)
(* own, which may change as long as words are added.  Words of length 1    *)
(* always are members.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Prefixes(w)    == {SubSeq(w, 1, n) : n \in 1..Len(w)}
Member(S, w)   == Len(w) = 1 \/ w \in S
(* S: prefixes stored; look-up of word w step by step: is there a position? *)
Walk(S, w)     == [n \in 1..Len(w) |-> \A i \in 1..n : Member(S, SubSeq(w, 1, i))]
Add(S, w)      == S \cup {x \in Prefixes(w) : Len(x) > 1}
Front(w)       == SubSeq(w, 1, Len(w) - 1)
Closed(S)      == \A w \in S : Len(w) = 2 \/ Front(w) \in S
=============================================================================
