---------------------------- MODULE EAContextMC ----------------------------
(* A context keeps what has been found out with its first use.  Two users   *)
(* share it: one may look while the other one is about to store its finding.*)
EXTENDS EAContext
VARIABLES ctx,     \* fields
          kept,    \* "none", "wide" or "narrow"
          script,  \* script field: completed from the locale
          pc, ans  \* per user
vars == <<ctx, kept, script, pc, ans>>
U == {1, 2}
Init == /\ ctx \in {x \in Contexts : Decided(x)} /\ kept = "none" /\ script = ctx.s
        /\ pc = [u \in U |-> "idle"] /\ ans = [u \in U |-> "none"]
Ask(u)  == /\ pc[u] = "idle" /\ UNCHANGED <<ctx, kept, script>>
           /\ IF kept # "none" THEN pc' = pc /\ ans' = [ans EXCEPT ![u] = kept]
              ELSE pc' = [pc EXCEPT ![u] = "script"] /\ ans' = ans
Complete(u) == /\ pc[u] = "script" /\ pc' = [pc EXCEPT ![u] = "store"]
               /\ script' = IF ctx.f THEN script ELSE Script([ctx EXCEPT !.s = script])
               /\ UNCHANGED <<ctx, kept, ans>>
Store(u) == /\ pc[u] = "store" /\ pc' = [pc EXCEPT ![u] = "idle"] /\ UNCHANGED <<ctx, script>>
            /\ kept' = IF Wide([ctx EXCEPT !.s = script]) THEN "wide" ELSE "narrow"
            /\ ans' = [ans EXCEPT ![u] = kept']
Next == \E u \in U : Ask(u) \/ Complete(u) \/ Store(u)
Spec == Init /\ [][Next]_vars
Right   == \A u \in U : ans[u] # "none" => (ans[u] = "wide") = Wide(ctx)
Stable  == [][kept # "none" => kept' = kept]_vars
Filled  == kept # "none" /\ ~ctx.f => script = Script(ctx)
=============================================================================
