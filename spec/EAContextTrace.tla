--------------------------- MODULE EAContextTrace ---------------------------
(* Observation: x contexts (f, s, g and i: the script read from the context *)
(* in the end, or "" if it has not been used), u uses: context (0: none,    *)
(* -1 the Latin one, -2 the East Asian one), class and width of a character *)
EXTENDS EAContext, Chunked
E == INSTANCE EAWidth
IsWide(o, k) == IF k <= 0 THEN k = -2 ELSE Wide(o.x[k])
UseOk(o, u)  == u.w = E!Base(u.c, IsWide(o, u.x))
Ok(o) == /\ \A i \in 1..Len(o.u) : UseOk(o, o.u[i])
         /\ \A i \in 1..Len(o.x) :
              LET x == o.x[i]
              IN /\ Assert(Decided(x) /\ x.s \in EAScripts \cup OtherScripts \cup {""} /\ x.g \in Langs \cup {""}, x)
                 /\ x.i # "" /\ ~x.f => x.i = Script(x)
Why(o) == <<[i \in 1..Len(o.x) |-> <<Wide(o.x[i]), Script(o.x[i])>>], {i \in 1..Len(o.u) : ~UseOk(o, o.u[i])}>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
