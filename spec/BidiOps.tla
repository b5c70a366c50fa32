------------------------------- MODULE BidiOps -------------------------------
(***************************************************************************)
(* Resolved levels as values.  A client has a pool of parts of the same    *)
(* paragraph T (paragraph level e): at first just the whole.  Part         *)
(* [from, to] holds characters from..to (of 1..Len(T); it is empty if      *)
(* from > to).  Splitting adds two parts, no operation changes any part.   *)
(* What an operation answers depends on its part only.                     *)
(***************************************************************************)
EXTENDS UAX9

Whole(T) == [from |-> 1, to |-> Len(T)]

(* at: number of characters of T before the position of the cut            *)
CanSplit(p, at) == p.from - 1 <= at /\ at <= p.to
SplitParts(p, at) == <<[from |-> p.from, to |-> at], [from |-> at + 1, to |-> p.to]>>

DirsOf(lv, p) == [i \in 1..(IF p.to < p.from THEN 0 ELSE p.to - p.from + 1) |-> lv[p.from + i - 1] % 2]
OrderOf(T, lv, p) == VisualOrder(T, lv, p.from, p.to)
=============================================================================
