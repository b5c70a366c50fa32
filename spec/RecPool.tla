------------------------------- MODULE RecPool -------------------------------
(***************************************************************************)
(* Recycling of recognizers.  Owners borrow objects from a pool, use them, *)
(* and give them back, all at the same time.  Taking an object out of the  *)
(* pool and putting it there are atomic (the pool locks), everything else  *)
(* is not: fields are set after taking and cleared before putting.         *)
(***************************************************************************)
EXTENDS Recognizer
CONSTANTS Obj, Owners, MaxLen, NoObj
VARIABLES field,  \* per object: [exp, len, done (no next state), user, pen] as stored
          free,   \* objects in the pool
          own,    \* per owner: its object or NoObj
          pc,     \* per owner: what it is doing
          should  \* per owner: what its recognizer should be like
vars == <<field, free, own, pc, should>>
Cleared == [exp |-> 0, len |-> 0, done |-> TRUE, user |-> 0, pen |-> <<>>]
Acts == {<<"go", <<>>>>, <<"stay", <<>>>>, <<"acc", <<1>>>>, <<"abort", <<>>>>, <<"nil", <<>>>>}

Init == /\ field = [o \in Obj |-> Cleared] /\ free = {}
        /\ own = [w \in Owners |-> NoObj] /\ pc = [w \in Owners |-> "idle"]
        /\ should = [w \in Owners |-> Cleared]
InUse == {own[w] : w \in Owners} \ {NoObj}
Take(w) == /\ pc[w] = "idle"
           /\ \/ \E o \in free : own' = [own EXCEPT ![w] = o] /\ free' = free \ {o}
              \/ free = {} /\ \E o \in Obj \ (InUse \cup free) : own' = [own EXCEPT ![w] = o] /\ free' = free
           /\ pc' = [pc EXCEPT ![w] = "fill"] /\ UNCHANGED <<field, should>>
Fill(w) == /\ pc[w] = "fill" /\ pc' = [pc EXCEPT ![w] = "use"]
           /\ \E e \in 1..2 : /\ field' = [field EXCEPT ![own[w]].exp = e, ![own[w]].done = FALSE]
                              /\ should' = [should EXCEPT ![w] = NewRec(e)]
           /\ UNCHANGED <<free, own>>
Use(w)  == /\ pc[w] = "use" /\ UNCHANGED <<free, own, pc>>
           /\ \/ \E a \in Acts : /\ field[own[w]].len < MaxLen
                                 /\ field' = [field EXCEPT ![own[w]] = Step(@, a)]
                                 /\ should' = [should EXCEPT ![w] = Step(@, a)]
              \/ /\ field' = [field EXCEPT ![own[w]].user = 1]      \* user data
                 /\ should' = [should EXCEPT ![w].user = 1]
Clear(w) == /\ pc[w] = "use" /\ pc' = [pc EXCEPT ![w] = "put"]
            /\ field' = [field EXCEPT ![own[w]] = Cleared] /\ should' = [should EXCEPT ![w] = Cleared]
            /\ UNCHANGED <<free, own>>
Put(w)  == /\ pc[w] = "put" /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ free' = free \cup {own[w]} /\ own' = [own EXCEPT ![w] = NoObj]
           /\ UNCHANGED <<field, should>>
Next == \E w \in Owners : Take(w) \/ Fill(w) \/ Use(w) \/ Clear(w) \/ Put(w)
Spec == Init /\ [][Next]_vars

Exclusive == \A v, w \in Owners : v # w /\ own[v] # NoObj => own[v] # own[w]
NotFree   == free \cap InUse = {}
LikeNew   == \A w \in Owners : pc[w] = "use" => field[own[w]] = should[w]
PoolClean == \A o \in free : field[o] = Cleared
Sym == Permutations(Obj) \cup Permutations(Owners)
=============================================================================
