------------------------------ MODULE SegRing ------------------------------
(***************************************************************************)
(* The segmenter as it is built (segment.go, deque.go): a ring buffer that *)
(* grows when full, shrinks when 3/4 empty and is re-used for the next     *)
(* text, a pointer to the next break, and counters instead of the          *)
(* abstract state.  TLC checks that it is a refinement of SegmenterMC.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxText, NB, Values, MaxLam, MaxPen, Longest_,
          MinCap   \* least capacity of the ring (64 in the Go code), a power of 2
VARIABLES ring,    \* [buf, head, tail, cnt]
          pos, lam, atEOF, err, bop,
          z, busy, out, tot, seg, failed

None  == [r |-> 0, p0 |-> 0, p1 |-> 0]
Size(g)    == Cardinality(DOMAIN g.buf)
Blank(n)   == [i \in 0..n-1 |-> None]
EmptyRing  == [buf |-> <<>>, head |-> 0, tail |-> 0, cnt |-> 0]  \* no storage yet
At(g, i)   == g.buf[(g.head + i) % Size(g)]
Resize(g)  == [buf |-> [i \in 0..2*g.cnt-1 |-> IF i < g.cnt THEN At(g, i) ELSE None],
               head |-> 0, tail |-> g.cnt, cnt |-> g.cnt]
Grow(g)    == IF g.cnt < Size(g) THEN g
              ELSE IF Size(g) = 0 THEN [g EXCEPT !.buf = Blank(MinCap)]
              ELSE Resize(g)
PushBack(g0, a) == LET g == Grow(g0)
                   IN [g EXCEPT !.buf[g.tail] = a, !.tail = (g.tail + 1) % Size(g), !.cnt = @ + 1]
PopFront(g0) == LET g == [g0 EXCEPT !.buf[g0.head] = None, !.head = (g0.head + 1) % Size(g0), !.cnt = @ - 1]
                IN IF Size(g) > MinCap /\ 4 * g.cnt = Size(g) THEN Resize(g) ELSE g
Clear(g)   == [buf |-> Blank(Size(g)), head |-> 0, tail |-> 0, cnt |-> 0]
SetAt(g, i, a) == [g EXCEPT !.buf[(g.head + i) % Size(g)] = a]

Content(g) == [i \in 1..g.cnt |-> At(g, i-1)]
AbsS == [q |-> Content(ring), eot |-> atEOF, lam |-> lam, pos |-> pos, err |-> err]
Abs == INSTANCE SegmenterMC WITH s <- AbsS

Idle == -2
Unbound == -1
Inclusive(b) == IF b = Unbound THEN 1000 ELSE b - 1

TLen(g, e) == IF e /\ g.cnt > 0 THEN g.cnt - 1 ELSE g.cnt
(* position in the queue of the next break, or -1 *)
RECURSIVE Scan(_, _, _, _)
Scan(g, i, to, dist) ==
  IF i < to /\ i <= dist
  THEN IF Abs!Feasible(At(g, i), NB, z) THEN i ELSE Scan(g, i+1, to, dist)
  ELSE IF i = dist + 1 THEN dist ELSE -1
Search(g, e, p, m, b) ==
  LET to   == Abs!Min(TLen(g, e), g.cnt - m)
      dist == IF b = Unbound THEN 1000 ELSE Inclusive(b) - (p - TLen(g, e))
  IN IF to <= 0 \/ dist < 0 THEN -1 ELSE Scan(g, 0, to, dist)

Init == /\ ring = EmptyRing /\ pos = 0 /\ lam = 0 /\ atEOF = FALSE /\ err = "" /\ bop = -1
        /\ z \in BOOLEAN \X BOOLEAN
        /\ busy = Idle /\ out = <<>> /\ seg = <<>> /\ failed = FALSE
        /\ tot = [i \in 1..MaxText+1 |-> <<0, 0>>]

Start(b) == /\ busy = Idle /\ busy' = b /\ seg' = <<>>
            /\ err' = IF err = "bound" THEN "" ELSE err
            /\ bop' = Search(ring, atEOF, pos, lam, b)
            /\ UNCHANGED <<ring, pos, lam, atEOF, z, out, tot, failed>>

RECURSIVE PopN(_, _)
PopN(g, k) == IF k = 0 THEN g ELSE PopN(PopFront(g), k-1)
Take == /\ busy # Idle /\ err = "" /\ bop >= 0 /\ busy' = Idle
        /\ IF bop + 1 > Longest_ THEN err' = "long" /\ UNCHANGED <<ring, out, seg, bop>>
           ELSE LET g == PopN(ring, bop + 1)
                    a == At(ring, bop)
                    f == pos - TLen(ring, atEOF)
                IN /\ ring' = g /\ err' = err
                   /\ out' = out \o [i \in 1..bop+1 |-> At(ring, i-1).r]
                   /\ seg' = <<f + 1, f + bop + 1, a.p0, a.p1, lam, ring.cnt, busy>>
                   /\ bop' = Search(g, atEOF, pos, lam, busy)
        /\ UNCHANGED <<pos, lam, atEOF, z, tot, failed>>

Stop(e) == /\ busy' = Idle /\ err' = e
           /\ UNCHANGED <<ring, pos, lam, atEOF, bop, z, out, tot, seg, failed>>
BoundReached == busy # Unbound /\ pos - lam > Inclusive(busy)
Halt == /\ busy # Idle
        /\ \/ err # "" /\ Stop(err)
           \/ err = "" /\ bop < 0 /\ ~atEOF /\ BoundReached /\ Stop("bound")
           \/ err = "" /\ bop < 0 /\ atEOF
              /\ Stop(IF busy # Unbound /\ pos - TLen(ring, atEOF) > Inclusive(busy) /\ TLen(ring, atEOF) > 0
                      THEN "bound" ELSE "")

(* penalties go to the end of the queue, excessive ones are dropped *)
RECURSIVE Insert(_, _, _)
Insert(g, sel, pens) ==
  LET RECURSIVE I(_, _)
      I(h, i) == IF i > Len(pens) \/ i > h.cnt THEN h
                 ELSE LET a == At(h, h.cnt - i)
                          b == IF sel = 0 THEN [a EXCEPT !.p0 = @ + pens[i]] ELSE [a EXCEPT !.p1 = @ + pens[i]]
                      IN I(SetAt(h, h.cnt - i, b), i+1)
  IN I(g, 1)
RECURSIVE InsertAll(_, _, _)
InsertAll(g, reps, k) == IF k > Len(reps) THEN g
                         ELSE InsertAll(Insert(g, IF k = 1 THEN 0 ELSE 1, reps[k][2]), reps, k+1)
Read == /\ busy # Idle /\ err = "" /\ bop < 0 /\ ~atEOF /\ ~BoundReached
        /\ \/ /\ err' = "fail" /\ busy' = Idle /\ failed' = TRUE
              /\ UNCHANGED <<ring, pos, lam, atEOF, bop, z, out, tot, seg>>
           \/ \E end \in BOOLEAN, reps \in Abs!Reports :
                /\ end \/ pos < MaxText
                /\ LET g == InsertAll(PushBack(ring, IF end THEN [r |-> 0, p0 |-> 10000, p1 |-> 10000]
                                                     ELSE [r |-> pos + 1, p0 |-> 0, p1 |-> 0]), reps, 1)
                       p == IF end THEN pos ELSE pos + 1
                       m == Abs!Longest(reps)
                   IN /\ ring' = g /\ pos' = p /\ lam' = m /\ atEOF' = end
                      /\ bop' = Search(g, end, p, m, busy)
                      /\ tot' = [i \in 1..MaxText+1 |->
                           IF i > pos + 1 THEN tot[i]
                           ELSE <<tot[i][1] + Abs!Sum(reps, {1}, pos + 2 - i), tot[i][2] + Abs!Sum(reps, 2..NB, pos + 2 - i)>>]
                /\ UNCHANGED <<err, z, busy, out, seg, failed>>
Reinit == /\ busy = Idle /\ ring' = Clear(ring) /\ pos' = 0 /\ lam' = 0 /\ atEOF' = FALSE /\ err' = "" /\ bop' = -1
          /\ out' = <<>> /\ seg' = <<>> /\ failed' = FALSE
          /\ tot' = [i \in 1..MaxText+1 |-> <<0, 0>>]
          /\ UNCHANGED <<z, busy>>
Next == Reinit \/ (\E b \in Abs!Bounds : Start(b)) \/ Take \/ Halt \/ Read
vars == <<ring, pos, lam, atEOF, err, bop, z, busy, out, tot, seg, failed>>
Spec == Init /\ [][Next]_vars

RingOk == LET g == ring
          IN /\ Size(g) \in {0, MinCap, 2*MinCap, 4*MinCap, 8*MinCap}
             /\ g.cnt <= Size(g)
             /\ Size(g) > 0 => (g.head + g.cnt) % Size(g) = g.tail % Size(g)
(* unused places do not hold on to old atoms *)
Clean == \A i \in DOMAIN ring.buf :
           (\E k \in 0..ring.cnt-1 : i = (ring.head + k) % Size(ring)) \/ ring.buf[i] = None
AbsInit == Abs!Init
AbsNext == [][Abs!Next]_(Abs!vars)
=============================================================================
