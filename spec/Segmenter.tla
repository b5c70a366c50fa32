------------------------------ MODULE Segmenter ------------------------------
(***************************************************************************)
(* What a segmenter does, independently of how it stores runes: a queue of *)
(* the characters read and not yet delivered, to which breakers add        *)
(* penalties after the fact.                                               *)
(*                                                                         *)
(* State (a record):                                                       *)
(*   q    sequence of atoms [r, p0, p1]: character, penalty of the primary *)
(*        breaker and sum of the secondary ones for a break after it;      *)
(*        after the end of text an artificial atom is the last one         *)
(*   eot  end of text has been met                                         *)
(*   lam  longest match still active: characters that may get penalties    *)
(*   pos  number of characters read                                        *)
(*   err  "" | "bound" | "fail" | "long"                                   *)
(* A report of a breaker is <<lam, penalties>>, the latter in reverse      *)
(* order, i.e. the first one is for the most recent atom.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Infinite == 10000
Unbound  == -1

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

Fresh == [q |-> <<>>, eot |-> FALSE, lam |-> 0, pos |-> 0, err |-> ""]

TextLen(s) == Len(s.q) - (IF s.eot THEN 1 ELSE 0)
Front(s)   == s.pos - TextLen(s)                      \* characters delivered
(* text positions no active match may touch any more *)
Settled(s) == Min(TextLen(s), Len(s.q) - s.lam)

(* z: <<zero counts as a break for the primary breaker, ... secondary>>    *)
Feasible(a, nb, z) == \/ a.p0 < Infinite /\ (z[1] \/ a.p0 # 0)
                      \/ nb > 1 /\ a.p1 < Infinite /\ (z[2] \/ a.p1 # 0)

(* Length of the next segment, or 0. b: no segment may extend past text    *)
(* position b.                                                             *)
RECURSIVE FirstFeasible(_, _, _, _, _)
FirstFeasible(q, i, n, nb, z) == IF i > n THEN 0
                                 ELSE IF Feasible(q[i], nb, z) THEN i
                                 ELSE FirstFeasible(q, i+1, n, nb, z)
Room(s, b) == IF b = Unbound THEN TextLen(s) + 1 ELSE b - Front(s)
Cut(s, b, nb, z) ==
  LET room == Room(s, b)
      nat  == FirstFeasible(s.q, 1, Min(Settled(s), room), nb, z)
  IN IF room <= 0 THEN 0
     ELSE IF nat > 0 THEN nat
     ELSE IF Settled(s) >= room THEN room             \* cut off at the bound
     ELSE 0

(* the bound is met: whatever comes up can no longer be before it *)
BoundMet(s, b) == b # Unbound /\ s.pos - s.lam >= b

(* Read another character r (or the end of text); reps: what the breakers  *)
(* report                                                                  *)
Sum(reps, ks, d) == LET RECURSIVE S(_)
                        S(k) == IF k > Len(reps) THEN 0
                                ELSE (IF k \in ks /\ d <= Len(reps[k][2]) THEN reps[k][2][d] ELSE 0) + S(k+1)
                    IN S(1)
RECURSIVE LongestOf(_, _)
LongestOf(reps, k) == IF k > Len(reps) THEN 0 ELSE Max(reps[k][1], LongestOf(reps, k+1))
Longest(reps) == LongestOf(reps, 1)
Reach(reps) == LET RECURSIVE R(_)
                   R(k) == IF k > Len(reps) THEN 0 ELSE Max(Len(reps[k][2]), R(k+1))
               IN R(1)
Push(s, r, end, reps) ==
  LET q0 == Append(s.q, IF end THEN [r |-> 0, p0 |-> Infinite, p1 |-> Infinite]
                               ELSE [r |-> r, p0 |-> 0, p1 |-> 0])
      n  == Len(q0)
      m  == Reach(reps)
      at(i) == LET d == n - i + 1
               IN IF d > m THEN q0[i]
                  ELSE [q0[i] EXCEPT !.p0 = @ + Sum(reps, {1}, d),
                                     !.p1 = @ + Sum(reps, 2..Len(reps), d)]
      q1 == IF m = 0 THEN q0 ELSE TLCEval([i \in 1..n |-> at(i)])
  IN [s EXCEPT !.q = q1, !.eot = end, !.lam = Longest(reps),
               !.pos = IF end THEN @ ELSE @ + 1]

Runes(q, n)   == [i \in 1..n |-> q[i].r]
Deliver(s, n) == [s EXCEPT !.q = SubSeq(@, n+1, Len(@))]
=============================================================================
