--------------------------- MODULE RecognizerTrace ---------------------------
(* Observation: a history of recognizers borrowed from the pool by one     *)
(* owner (others borrow and release at the same time).                     *)
(*  ops  new h exp / ev h act / user h / rel h; after it exp, len, done,   *)
(*       user (0: no user data), pen (what an event reported), calls: how  *)
(*       many state functions have been called                             *)
(*  dup  number of times a recognizer was borrowed that somebody has       *)
(*  drv  (the driver) what recognizers report after they are done is not   *)
(*       asked                                                             *)
EXTENDS Recognizer, Chunked

Restrict(f, S) == [x \in S |-> f[x]]
Put(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
(* st: handles -> recognizers *)
After(st, op) ==
  CASE op.op = "new"  -> Put(st, op.h, NewRec(op.exp0))
    [] op.op = "ev"   -> Put(st, op.h, Step(st[op.h], op.act))
    [] op.op = "user" -> Put(st, op.h, [st[op.h] EXCEPT !.user = op.user0])
    [] op.op = "rel"  -> Restrict(st, DOMAIN st \ {op.h})
OpOk(st, st2, op) ==
  op.op # "rel" => LET r == st2[op.h]
                   IN /\ op.exp = r.exp /\ op.len = r.len /\ op.done = r.done /\ op.user = r.user
                      /\ op.op = "ev" => /\ op.calls = (IF st[op.h].done THEN 0 ELSE 1)
                                         /\ ~st[op.h].done => op.pen = Reported(st[op.h], r)
RECURSIVE Run(_, _, _)
Run(o, st, j) == IF j > Len(o.ops) THEN 0
                 ELSE LET st2 == TLCEval(After(st, o.ops[j]))
                      IN IF OpOk(st, st2, o.ops[j]) THEN Run(o, st2, j+1) ELSE j
RECURSIVE StateAt(_, _, _, _)
StateAt(o, st, j, to) == IF j > to THEN st ELSE StateAt(o, TLCEval(After(st, o.ops[j])), j+1, to)
Ok(o)  == o.panic = "" /\ o.dup = 0 /\ Run(o, <<>>, 1) = 0
Why(o) == LET j == Run(o, <<>>, 1) IN <<"op", j, IF j = 0 THEN "" ELSE StateAt(o, <<>>, 1, j)[o.ops[j].h]>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
