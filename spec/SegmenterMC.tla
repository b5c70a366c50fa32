---------------------------- MODULE SegmenterMC ----------------------------
(***************************************************************************)
(* The segmenter as a state machine, with breakers that report anything at *)
(* any time, readers that end or fail anywhere, and clients that call Next *)
(* and BoundedNext in any order.                                           *)
(* Ghosts: out - what has been delivered, tot - all penalties ever         *)
(* reported per text position, seg - the last delivery.                    *)
(***************************************************************************)
EXTENDS Segmenter
CONSTANTS MaxText,  \* longest text
          NB,       \* number of breakers
          Values,   \* penalties
          MaxLam, MaxPen,
          Longest_  \* longest segment allowed
VARIABLES s, z,
          busy,     \* bound of the call going on, or Idle
          out, tot, seg, failed
Idle == -2
vars == <<s, z, busy, out, tot, seg, failed>>

Pens    == UNION {[1..n -> Values] : n \in 0..MaxPen}
Report  == (0..MaxLam) \X Pens
Reports == [1..NB -> Report]
Bounds  == {Unbound} \cup (0..MaxText)

Init == /\ s = Fresh /\ z \in BOOLEAN \X BOOLEAN
        /\ busy = Idle /\ out = <<>> /\ seg = <<>> /\ failed = FALSE
        /\ tot = [i \in 1..MaxText+1 |-> <<0, 0>>]

Start(b) == /\ busy = Idle /\ busy' = b /\ seg' = <<>>
            /\ s' = [s EXCEPT !.err = IF @ = "bound" THEN "" ELSE @]
            /\ UNCHANGED <<z, out, tot, failed>>

n == Cut(s, busy, NB, z)
Take == /\ busy # Idle /\ s.err = "" /\ n > 0 /\ busy' = Idle
        /\ IF n > Longest_
           THEN s' = [s EXCEPT !.err = "long"] /\ UNCHANGED <<out, seg>>
           ELSE /\ out' = out \o Runes(s.q, n)
                /\ seg' = <<Front(s) + 1, Front(s) + n, s.q[n].p0, s.q[n].p1, s.lam, Len(s.q), busy>>
                /\ s' = Deliver(s, n)
        /\ UNCHANGED <<z, tot, failed>>
Stop(e) == busy' = Idle /\ s' = [s EXCEPT !.err = e] /\ UNCHANGED <<z, out, tot, seg, failed>>
Halt == /\ busy # Idle
        /\ \/ s.err # "" /\ Stop(s.err)
           \/ s.err = "" /\ n = 0 /\ BoundMet(s, busy) /\ Stop("bound")
           \/ s.err = "" /\ n = 0 /\ BoundMet(s, busy) /\ s.eot /\ TextLen(s) = 0 /\ Stop("") \* nothing left
           \/ s.err = "" /\ n = 0 /\ ~BoundMet(s, busy) /\ s.eot
              /\ Stop(IF busy # Unbound /\ Front(s) >= busy /\ TextLen(s) > 0 THEN "bound" ELSE "")
(* characters are named by their text positions *)
Read == /\ busy # Idle /\ s.err = "" /\ n = 0 /\ ~BoundMet(s, busy) /\ ~s.eot
        /\ \/ /\ s' = [s EXCEPT !.err = "fail"] /\ busy' = Idle /\ failed' = TRUE
              /\ UNCHANGED <<z, out, tot, seg>>
           \/ \E end \in BOOLEAN, reps \in Reports :
                /\ end \/ s.pos < MaxText
                /\ s' = Push(s, s.pos + 1, end, reps)
                /\ LET top == s.pos + 1
                   IN tot' = [i \in 1..MaxText+1 |->
                        IF i > top THEN tot[i]
                        ELSE <<tot[i][1] + Sum(reps, {1}, top - i + 1),
                               tot[i][2] + Sum(reps, 2..NB, top - i + 1)>>]
                /\ UNCHANGED <<z, busy, out, seg, failed>>
(* another text, wherever the last one has been left *)
Reinit == /\ busy = Idle /\ s' = Fresh /\ out' = <<>> /\ seg' = <<>> /\ failed' = FALSE
          /\ tot' = [i \in 1..MaxText+1 |-> <<0, 0>>]
          /\ UNCHANGED <<z, busy>>
Next == Reinit \/ (\E b \in Bounds : Start(b)) \/ Take \/ Halt \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Halt \/ Read)

-----------------------------------------------------------------------------
(* S01: nothing is lost, doubled or altered *)
Lossless == out \o Runes(s.q, TextLen(s)) = [i \in 1..s.pos |-> i]
NotEmpty == seg # <<>> => seg[2] >= seg[1]
(* S02: a segment ends at a feasible break or at the bound, with all penalties reported, and
   no match was active there; no feasible break is passed over *)
At(i, t) == [p0 |-> t[i][1], p1 |-> t[i][2]]
WellPlaced == seg # <<>> =>
  LET f == seg[1]  l == seg[2]
  IN /\ <<seg[3], seg[4]>> = tot[l]
     /\ Feasible(At(l, tot), NB, z) \/ l = seg[7]
     /\ \A i \in f..l-1 : ~Feasible(At(i, tot), NB, z)
     /\ l - f + 1 <= Max(0, seg[6] - seg[5])
(* S03 *)
InBound == seg # <<>> /\ seg[7] # Unbound => seg[2] <= seg[7]
StopsAtBound == s.err = "bound" => Len(out) <= s.pos
(* S04 *)
LongStops == seg # <<>> => seg[2] - seg[1] < Longest_
FailStops == failed <=> s.err = "fail"
(* every call comes to an end *)
Returns == (busy # Idle) ~> (busy = Idle)
(* a text whose end is reported as a break by the primary breaker is delivered completely *)
=============================================================================
