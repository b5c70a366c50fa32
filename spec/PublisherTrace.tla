--------------------------- MODULE PublisherTrace ---------------------------
(* Observation: a history of one publisher.                                *)
(*  subs  the subscribers: kind "r" (recognizers, acts are what their      *)
(*        state functions do) or "s" (acts are answers <<done, len, pen>>) *)
(*  ops   sub  s                                                           *)
(*        ev   got: who has been called, in that order; new: who has been  *)
(*             subscribed meanwhile; far, pen: result; uns: who has been   *)
(*             unsubscribed; bad: calls with other arguments than those    *)
(*             published, n: Len()                                         *)
(*        push s done / top s / pop s / popdone s / flip (-1: none); n     *)
EXTENDS Publisher, Recognizer, Chunked

Act(sub, k) == IF k <= Len(sub.acts) THEN sub.acts[k] ELSE sub.acts[Len(sub.acts)]
RECURSIVE RecAfter(_, _)
RecAfter(sub, k) == IF k = 0 THEN NewRec(0) ELSE Step(RecAfter(sub, k-1), Act(sub, k))
(* answer to the k-th event *)
AnswerOf(sub, k) == IF sub.kind = "r" THEN Answer(RecAfter(sub, k-1), Act(sub, k))
                    ELSE LET a == Act(sub, k) IN [done |-> a[1] = 1, len |-> a[2], pen |-> a[3]]
Range(s) == {s[j] : j \in 1..Len(s)}
NoDup(s) == Cardinality(Range(s)) = Len(s)

(* state: act: active subscribers -> events got; dn: queued ones that are done *)
Begin == [act |-> <<>>, dn |-> {}]
Restrict(f, S) == [x \in S |-> f[x]]
Add(f, S, v) == [x \in (DOMAIN f) \cup S |-> IF x \in DOMAIN f THEN f[x] ELSE v]
Answers(o, st) == [s \in DOMAIN st.act |-> AnswerOf(o.subs[s], st.act[s] + 1)]
Queued(st) == DOMAIN st.act \cup st.dn

OpOk(o, st, op) ==
  /\ CASE op.op = "ev" ->
            LET a == TLCEval(Answers(o, st))
            IN /\ Range(op.got) = DOMAIN st.act /\ NoDup(op.got) /\ op.bad = 0
               /\ op.far = Longest(a) /\ op.pen = Penalties(a)
               /\ Range(op.uns) = GetDone(a) /\ NoDup(op.uns)
       [] op.op = "top"     -> IF st.dn # {} THEN op.s \in st.dn
                               ELSE IF Queued(st) = {} THEN op.s = -1 ELSE op.s \in Queued(st)
       [] op.op = "pop"     -> IF st.dn # {} THEN op.s \in st.dn
                               ELSE IF Queued(st) = {} THEN op.s = -1 ELSE op.s \in Queued(st)
       [] op.op = "popdone" -> IF st.dn # {} THEN op.s \in st.dn ELSE op.s = -1
       [] op.op = "flip"    -> op.s \in Queued(st) /\ (st.dn # {} => op.s \in st.dn)
       [] OTHER             -> TRUE
After(o, st, op) ==
  CASE op.op = "sub"  -> [st EXCEPT !.act = Add(@, {op.s}, 0)]
    [] op.op = "push" -> IF op.done THEN [st EXCEPT !.dn = @ \cup {op.s}] ELSE [st EXCEPT !.act = Add(@, {op.s}, 0)]
    [] op.op = "ev"   -> LET a == TLCEval(Answers(o, st))
                             left == (DOMAIN st.act) \ GetDone(a)
                         IN [st EXCEPT !.act = Add([s \in left |-> @[s] + 1], Range(op.new), 0)]
    [] op.op \in {"pop", "popdone"} -> [act |-> Restrict(st.act, (DOMAIN st.act) \ {op.s}), dn |-> st.dn \ {op.s}]
    [] op.op = "flip" -> IF op.s \in st.dn THEN [act |-> Add(st.act, {op.s}, 0), dn |-> st.dn \ {op.s}]
                         ELSE [act |-> Restrict(st.act, (DOMAIN st.act) \ {op.s}), dn |-> st.dn \cup {op.s}]
    [] OTHER -> st
RECURSIVE Run(_, _, _)
Run(o, st, j) ==
  IF j > Len(o.ops) THEN 0
  ELSE LET op == o.ops[j]
       IN IF ~OpOk(o, st, op) THEN j
          ELSE LET st2 == TLCEval(After(o, st, op))
               IN IF op.n # Cardinality(Queued(st2)) THEN j ELSE Run(o, st2, j+1)
RECURSIVE StateAt(_, _, _, _)
StateAt(o, st, j, to) == IF j >= to THEN st ELSE StateAt(o, TLCEval(After(o, st, o.ops[j])), j+1, to)

Ok(o)  == o.panic = "" /\ Run(o, Begin, 1) = 0
Why(o) == LET j == Run(o, Begin, 1)
              st == StateAt(o, Begin, 1, j)
          IN IF j = 0 THEN <<"no panic">> ELSE <<"op", j, st, IF o.ops[j].op = "ev" THEN Answers(o, st) ELSE <<>>>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
