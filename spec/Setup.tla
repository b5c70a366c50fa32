------------------------------- MODULE Setup -------------------------------
(***************************************************************************)
(* Class tables that are set up with their first use.  Users of different  *)
(* kinds need different tables, and some tables are shared.  A user asks   *)
(* for the set-up of its tables one after the other and reads them then.   *)
(* A table is guarded by a "once": a flag that is checked first, and a     *)
(* lock under which the flag is checked again, the table is filled entry   *)
(* by entry, and the flag is raised at last.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Users, Tables, Entries, Needs, NoUser
ASSUME Needs \in [Users -> Seq(Tables)]
VARIABLES filled,  \* per table: number of entries
          done,    \* per table: flag
          lock,    \* per table: user holding the lock or NoUser
          pc, at   \* per user: what it does, and which of its tables it is at
vars == <<filled, done, lock, pc, at>>
Init == /\ filled = [t \in Tables |-> 0] /\ done = [t \in Tables |-> FALSE]
        /\ lock = [t \in Tables |-> NoUser]
        /\ pc = [u \in Users |-> "check"] /\ at = [u \in Users |-> 1]
T(u) == Needs[u][at[u]]
Move(u) == IF at[u] = Len(Needs[u]) THEN pc' = [pc EXCEPT ![u] = "read"] /\ UNCHANGED at
           ELSE pc' = [pc EXCEPT ![u] = "check"] /\ at' = [at EXCEPT ![u] = @ + 1]
Check(u) == /\ pc[u] = "check" /\ UNCHANGED <<filled, done, lock>>
            /\ IF done[T(u)] THEN Move(u) ELSE pc' = [pc EXCEPT ![u] = "lock"] /\ UNCHANGED at
Lock(u) == /\ pc[u] = "lock" /\ lock[T(u)] = NoUser
           /\ lock' = [lock EXCEPT ![T(u)] = u]
           /\ pc' = [pc EXCEPT ![u] = IF done[T(u)] THEN "unlock" ELSE "fill"]
           /\ UNCHANGED <<filled, done, at>>
Fill(u) == /\ pc[u] = "fill" /\ UNCHANGED <<lock, at>>
           /\ IF filled[T(u)] < Entries
              THEN filled' = [filled EXCEPT ![T(u)] = @ + 1] /\ UNCHANGED <<done, pc>>
              ELSE done' = [done EXCEPT ![T(u)] = TRUE] /\ pc' = [pc EXCEPT ![u] = "unlock"] /\ UNCHANGED filled
Unlock(u) == /\ pc[u] = "unlock" /\ lock' = [lock EXCEPT ![T(u)] = NoUser]
             /\ Move(u) /\ UNCHANGED <<filled, done>>
Finished == \A u \in Users : pc[u] = "read"
Next == (\E u \in Users : Check(u) \/ Lock(u) \/ Fill(u) \/ Unlock(u)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NobodyReadsPartly == \A u \in Users : pc[u] = "read" => \A i \in 1..Len(Needs[u]) : filled[Needs[u][i]] = Entries
OneFills   == \A u, v \in Users : u # v /\ pc[u] = "fill" /\ pc[v] = "fill" => T(u) # T(v)
NeverAgain == [][\A t \in Tables : done[t] => filled'[t] = filled[t]]_vars
EverybodyGetsThere == <>Finished
=============================================================================
