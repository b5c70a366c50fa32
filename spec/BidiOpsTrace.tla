---------------------------- MODULE BidiOpsTrace ----------------------------
(* Observation: t, e  text as in UAX9Trace                                 *)
(*              ops   history of operations; op: "split" of part o at at,  *)
(*                    "dirs" and "reorder" with the answer d               *)
EXTENDS BidiOps, Chunked

(* acc: pool of parts, and whether everything has been right so far *)
StepOk(T, lv, acc, q) ==
  LET p == acc.pool[q.o]
  IN  CASE q.op = "split"   -> [acc EXCEPT !.pool = @ \o SplitParts(p, q.at), !.ok = @ /\ CanSplit(p, q.at)]
        [] q.op = "dirs"    -> [acc EXCEPT !.ok = @ /\ LET w == DirsOf(lv, p)
                                  IN Len(w) = Len(q.d) /\ \A i \in 1..Len(w) : Shown(T, p.from+i-1) => w[i] = q.d[i]]
        [] q.op = "reorder" -> [acc EXCEPT !.ok = @ /\ q.d = OrderOf(T, lv, p)]

Ok(o) == /\ o.p = ""
         /\ LET lv == TLCEval(Levels(o.t, o.e))
            IN  FoldLeft(LAMBDA acc, q : TLCEval(StepOk(o.t, lv, acc, q)), [pool |-> <<Whole(o.t)>>, ok |-> TRUE], o.ops).ok
Why(o) == <<"levels", Levels(o.t, o.e)>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
