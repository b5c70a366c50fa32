------------------------------ MODULE TrieTrace ------------------------------
(* Observation: a history of a trie.  n size, c number of categories, panic;*)
(* ops, each with word w:                                                   *)
(*   alloc   position p (-1: refused for lack of space)                     *)
(*   step    as alloc, position by position, with an iterator: ps           *)
(*   freeze                                                                 *)
(*   all     positions ps of words ws, asked for one by one                 *)
(*   walk    positions ps of w, step by step with an iterator               *)
(* A refused word may leave prefixes behind: from then on its prefixes may  *)
(* be members ("maybe").                                                    *)
EXTENDS Trie, Chunked
Rng(s) == {s[i] : i \in DOMAIN s}
New == [s |-> {}, maybe |-> {}, frozen |-> FALSE]
After(st, op) ==
  CASE op.op = "freeze" -> [st EXCEPT !.frozen = TRUE]
    [] op.op \in {"alloc", "step"} /\ ~st.frozen ->
         IF op.p = -1 THEN [st EXCEPT !.maybe = @ \cup (Add({}, op.w) \ st.s)]
         ELSE [st EXCEPT !.s = Add(@, op.w), !.maybe = @ \ Prefixes(op.w)]
    [] OTHER -> st
(* a family may grow up to all categories *)
Width(S) == IF S = {} THEN 1 ELSE LET F == {Front(w) : w \in S}
            IN CHOOSE m \in 1..60 : (\E f \in F : Cardinality({w \in S : Front(w) = f}) = m)
                                 /\ \A f \in F : Cardinality({w \in S : Front(w) = f}) <= m
Roomy(o, S) == LET span == o.n - 2 * (o.c + 1)
               IN (Width(S) + 2) * 2 * (Cardinality(S) + 1) < (IF span < 30 THEN span ELSE 30)
Found(st, w, p) == w \in st.maybe \/ (p # 0) = Member(st.s, w)
Injective(ws, ps) == \A i, j \in 1..Len(ws) : ps[i] # 0 /\ ps[i] = ps[j] => ws[i] = ws[j]
OpOk(o, st, op) ==
  CASE op.op = "alloc"  -> IF st.frozen THEN Found(st, op.w, op.p)
                           ELSE op.p > 0 \/ (op.p = -1 /\ ~Roomy(o, Add(st.s \cup st.maybe, op.w)))
    [] op.op = "step"   -> IF op.p = -1 THEN ~st.frozen /\ ~Roomy(o, Add(st.s \cup st.maybe, op.w))
                           ELSE Len(op.ps) = Len(op.w) /\ \A i \in 1..Len(op.w) : op.ps[i] > 0
    [] op.op = "all"    -> /\ Injective(op.ws, op.ps)
                           /\ \A i \in 1..Len(op.ws) : Found(st, op.ws[i], op.ps[i])
    [] op.op = "walk"   -> /\ Len(op.ps) = Len(op.w)
                           /\ \A i \in 1..Len(op.w) : LET x == SubSeq(op.w, 1, i)
                                 IN IF Prefixes(x) \cap st.maybe # {} THEN TRUE ELSE (op.ps[i] # 0) = Walk(st.s, op.w)[i]
                           /\ \A i \in 2..Len(op.w) : op.ps[i-1] = 0 => op.ps[i] = 0
    [] OTHER            -> TRUE
RECURSIVE Run(_, _, _)
Run(o, st, j) == IF j > Len(o.ops) THEN 0
                 ELSE LET op == o.ops[j]
                      IN IF ~OpOk(o, st, op) THEN j ELSE Run(o, TLCEval(After(st, op)), j + 1)
(* once frozen, every prefix has one position for good, and no other has it *)
Asked(o, f) == UNION {LET op == o.ops[j]
                      IN CASE op.op = "walk" -> {<<SubSeq(op.w, 1, i), op.ps[i]>> : i \in {k \in 1..Len(op.w) : op.ps[k] # 0}}
                           [] op.op = "alloc" /\ op.p # 0 -> {<<op.w, op.p>>}
                           [] op.op = "all" -> {<<op.ws[i], op.ps[i]>> : i \in {k \in 1..Len(op.ws) : op.ps[k] # 0}}
                           [] OTHER -> {} : j \in f..Len(o.ops)}
Frozen(o) == LET F == {j \in 1..Len(o.ops) : o.ops[j].op = "freeze"}
             IN IF F = {} THEN TRUE
                ELSE LET A == Asked(o, CHOOSE j \in F : \A k \in F : j <= k)
                     IN /\ Cardinality({a[1] : a \in A}) = Cardinality(A)
                        /\ Cardinality({a[2] : a \in A}) = Cardinality(A)
Ok(o)  == o.panic = "" /\ Run(o, New, 1) = 0 /\ Frozen(o)
Why(o) == IF o.panic # "" THEN <<"no panic">>
          ELSE LET j == Run(o, New, 1) IN IF j = 0 THEN <<"one position per prefix">> ELSE <<"not op", j, o.ops[j]>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
