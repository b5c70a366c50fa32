------------------------------ MODULE Recognizer ------------------------------
(***************************************************************************)
(* A recognizer follows a chain of state functions.  What a state function *)
(* does is an action <<name, penalties>>:                                  *)
(*   go    a character has been matched, there is another state            *)
(*   stay  there is another state, match unchanged                         *)
(*   acc   the match is accepted (this character included), with penalties *)
(*   abort there is no match                                               *)
(*   nil   no other state, match as it is                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NewRec(exp) == [exp |-> exp, len |-> 0, done |-> FALSE, user |-> 0, pen |-> <<>>]

(* an event: the recognizer afterwards *)
Step(r, act) ==
  IF r.done THEN r
  ELSE CASE act[1] = "go"    -> [r EXCEPT !.len = @ + 1]
         [] act[1] = "stay"  -> r
         [] act[1] = "acc"   -> [r EXCEPT !.len = @ + 1, !.done = TRUE, !.pen = act[2]]
         [] act[1] = "abort" -> [r EXCEPT !.len = 0, !.done = TRUE]
         [] act[1] = "nil"   -> [r EXCEPT !.done = TRUE]
(* the penalties reported with an event which made r0 to r *)
Reported(r0, r) == IF r.done /\ ~r0.done /\ r.len > 0 THEN r.pen ELSE <<>>
Answer(r0, act) == LET r == Step(r0, act) IN [done |-> r.done, len |-> r.len, pen |-> Reported(r0, r)]
=============================================================================
