----------------------------- MODULE PublisherQ -----------------------------
(***************************************************************************)
(* How the default publisher does it: an array of subscribers, active ones *)
(* below a gap.  An event is passed on from the top of the array down,     *)
(* while the array is re-ordered in place; then those which are done are   *)
(* popped from the top.  Subscribers may be subscribed while an event is   *)
(* passed on.                                                              *)
(* Outside of events the array serves as a queue, too: subscribers that    *)
(* are done may be pushed, the topmost one may change its mind (followed   *)
(* by Fix), and be popped.                                                 *)
(***************************************************************************)
EXTENDS Publisher
CONSTANTS Subs,     \* all there will ever be
          Pens      \* penalties subscribers answer with

VARIABLES q, gap,   \* the array; number of subscribers below the gap
          i,        \* next index to be served; -1 between events, 0 when popping
          done,     \* subscribers that are done
          used,     \* subscribers that have been subscribed at some time
          tot, far, \* penalties summed up, longest match
          begun,    \* subscribers active when the event was published
          ans,      \* answers given to the event
          held      \* subscribers that should be in the queue

vars == <<q, gap, i, done, used, tot, far, begun, ans, held>>

Active(s) == s \notin done
Swap(a, x, y) == [a EXCEPT ![x] = a[y], ![y] = a[x]]

(* q is indexed from 1, k and g are counted from 0 as in the code *)
BubbleUp(a, g, k, dn) ==
  LET a1 == IF k < g-1
            THEN IF g < Len(a) THEN Swap(a, k+1, g)
                 ELSE IF k < Len(a)-1 THEN Swap(a, k+1, Len(a)) ELSE a
            ELSE a
      g1 == IF g > 0 /\ a1[g] \in dn THEN g-1 ELSE g
  IN <<a1, g1>>
BubbleDown(a, g, k, dn) ==
  LET a1 == IF k >= g /\ g < k THEN Swap(a, k+1, g+1) ELSE a
      g1 == IF g < Len(a) /\ a1[g+1] \notin dn THEN g+1 ELSE g
  IN <<a1, g1>>
Fix(a, g, k, dn) == IF k >= Len(a) THEN <<a, g>>
                    ELSE IF a[k+1] \in dn THEN BubbleUp(a, g, k, dn) ELSE BubbleDown(a, g, k, dn)
Push(a, g, s, dn) == LET b == Append(a, s)
                     IN IF s \notin dn THEN BubbleDown(b, g, Len(a), dn) ELSE <<b, g>>

Set(p) == q' = p[1] /\ gap' = p[2]

Init == /\ q = <<>> /\ gap = 0 /\ i = -1 /\ done = {} /\ used = {}
        /\ tot = <<>> /\ far = 0 /\ begun = {} /\ ans = <<>> /\ held = {}

Subscribe(s, dn) ==                                     \* also in the middle of an event
  /\ s \notin used /\ used' = used \cup {s} /\ held' = held \cup {s}
  /\ done' = IF dn THEN done \cup {s} ELSE done
  /\ Set(Push(q, gap, s, done'))
  /\ i # 0 /\ (dn => i = -1)
  /\ UNCHANGED <<i, tot, far, begun, ans>>

Publish ==                                              \* pre-condition: nobody is done
  /\ i = -1 /\ done \cap held = {} /\ held # {}
  /\ i' = Len(q) /\ begun' = held /\ ans' = <<>> /\ tot' = <<>> /\ far' = 0
  /\ UNCHANGED <<q, gap, done, used, held>>

Add(t, p) == [j \in 1..PMax({Len(t), Len(p)}) |->
                (IF j <= Len(t) THEN t[j] ELSE 0) + (IF j <= Len(p) THEN p[j] ELSE 0)]
Visit(dn, len, p) ==                                    \* i > 0: index i-1 is served
  /\ i > 0 /\ i' = i-1
  /\ LET s == q[i]
     IN /\ Assert(s \notin DOMAIN ans, <<"served twice", s>>)
        /\ Assert(s \notin done, <<"done before", s>>)
        /\ ans' = ans @@ (s :> [done |-> dn, len |-> len, pen |-> p])
        /\ done' = IF dn THEN done \cup {s} ELSE done
        /\ far'  = IF ~dn /\ len > far THEN len ELSE far
        /\ tot'  = Add(tot, p)
        /\ Set(Fix(q, gap, i-1, done'))
  /\ UNCHANGED <<used, begun, held>>

Top == q[Len(q)]
PopIt == /\ q' = SubSeq(q, 1, Len(q)-1)
         /\ gap' = IF gap > Len(q)-1 THEN gap-1 ELSE gap
         /\ held' = held \ {Top}
PopDone == /\ i = 0                                     \* end of an event
           /\ IF q # <<>> /\ Top \in done THEN PopIt /\ i' = i ELSE i' = -1 /\ UNCHANGED <<q, gap, held>>
           /\ UNCHANGED <<done, used, tot, far, begun, ans>>
Pop == i = -1 /\ q # <<>> /\ PopIt /\ ans' = <<>> /\ begun' = {} /\ tot' = <<>> /\ far' = 0 /\ UNCHANGED <<i, done, used>>
Flip == /\ i = -1 /\ q # <<>>
        /\ done' = IF Top \in done THEN done \ {Top} ELSE done \cup {Top}
        /\ Set(Fix(q, gap, Len(q)-1, done'))
        /\ ans' = <<>> /\ begun' = {} /\ tot' = <<>> /\ far' = 0
        /\ UNCHANGED <<i, used, held>>

Next == \/ \E s \in Subs, dn \in BOOLEAN : Subscribe(s, dn)
        \/ Publish
        \/ \E dn \in BOOLEAN, len \in 0..2, p \in Pens : Visit(dn, len, p)
        \/ PopDone \/ Pop \/ Flip
Spec == Init /\ [][Next]_vars

(* properties *)
Members == {q[k] : k \in 1..Len(q)}
NothingLost == Members = held /\ Len(q) = Cardinality(held)
GapOk == /\ gap \in 0..Len(q)
         /\ \A k \in 1..Len(q) : (k <= gap) <=> (q[k] \notin done)
TopOk == i \in {-1, 0} /\ (\E s \in Members : s \in done) => Top \in done
(* the event has been passed on *)
Served == i \in {-1, 0} /\ begun # {} => /\ DOMAIN ans = begun
                                         /\ tot = Penalties(ans)
                                         /\ far = Longest(ans)
Popped == i = -1 /\ begun # {} => held \cap GetDone(ans) = {}
MCPens == {<<>>, <<1>>, <<0, 2>>}
Sym == Permutations(Subs)
=============================================================================
