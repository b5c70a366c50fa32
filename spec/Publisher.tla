------------------------------ MODULE Publisher ------------------------------
(***************************************************************************)
(* What a rune publisher does: it has active subscribers and passes every  *)
(* event on to all of them.  A subscriber answers an event by being done   *)
(* afterwards or not; nothing is known about the order in which            *)
(* subscribers are called.                                                 *)
(*                                                                         *)
(* A subscriber's life is a sequence of answers [done, len, pen]: is it    *)
(* done, the length of its match, penalties (in reverse order of the       *)
(* text).  act: function from active subscribers to the number of answers  *)
(* given.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

PMax(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m

RECURSIVE SumOver(_, _, _)
(* sum of the j-th penalties of a set of answers, given by a function *)
SumOver(S, ans, j) == IF S = {} THEN 0
                      ELSE LET s == CHOOSE s \in S : TRUE
                           IN (IF j <= Len(ans[s].pen) THEN ans[s].pen[j] ELSE 0) + SumOver(S \ {s}, ans, j)

(* the outcome of an event: ans is the answer of every active subscriber *)
Longest(ans)   == PMax({ans[s].len : s \in {s \in DOMAIN ans : ~ans[s].done}} \cup {0})
Penalties(ans) == [j \in 1..PMax({Len(ans[s].pen) : s \in DOMAIN ans}) |-> SumOver(DOMAIN ans, ans, j)]
GetDone(ans)   == {s \in DOMAIN ans : ans[s].done}
=============================================================================
