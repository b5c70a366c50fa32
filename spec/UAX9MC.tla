------------------------------- MODULE UAX9MC -------------------------------
(***************************************************************************)
(* Sanity of the specification UAX9 itself: a text grows character by      *)
(* character, and what the algorithm is known to guarantee has to hold for *)
(* every text.                                                             *)
(***************************************************************************)
EXTENDS UAX9

CONSTANTS Alphabet, MaxLen
SmallDepth == 2

VARIABLES T, e
vars == <<T, e>>

Init == T = <<>> /\ e \in {0, 1}
Next == Len(T) < MaxLen /\ e' = e /\ \E c \in Alphabet : T' = Append(T, c)
Spec == Init /\ [][Next]_vars

lv == TLCEval(Levels(T, e))
N  == Len(T)

Perm(s, S) == Len(s) = Cardinality(S) /\ {s[i] : i \in 1..Len(s)} = S

(* I1, I2: at most two above the level of the embedding, parity by class   *)
LevelsOk == LET x == TLCEval(Explicit(T, e)) l == lv IN
  \A i \in 1..N : T[i] \notin Removed =>
     /\ l[i] - x.lvl[i] \in {0, 1, 2}
     /\ T[i] = "L" => l[i] % 2 = 0
     /\ T[i] \in {"R", "AL"} => l[i] % 2 = 1
     /\ T[i] = "AN" => l[i] % 2 = 0
     /\ T[i] = "EN" => l[i] % 2 = 0

(* The visual order is a permutation; nothing moves if there is no odd level *)
OrderOk == LET l == lv IN
  /\ Perm(VisualOrder(T, l, 1, N), {i \in 1..N : Shown(T, i)})
  /\ (\A i \in 1..N : T[i] \notin Removed => l[i] = 0) =>
        VisualOrder(T, l, 1, N) = SetToSortSeq({i \in 1..N : Shown(T, i)}, <)
  /\ (\A i \in 1..N : T[i] \notin Removed => l[i] = 1) =>
        VisualOrder(T, l, 1, N) = Reverse(SetToSortSeq({i \in 1..N : Shown(T, i)}, <))

(* An isolate is a neutral to the text around it, whatever it contains      *)
IsolateOk ==
  LET m == TLCEval(Matching(T)) l == lv x == TLCEval(Explicit(T, e)) IN
  \A i \in 1..N : m[i] # 0 /\ x.own[i+1] = i =>
    LET U == SubSeq(T, 1, i) \o SubSeq(T, m[i], N)
        k == TLCEval(Levels(U, e))
    IN  /\ \A j \in 1..i : T[j] \notin Removed => k[j] = l[j]
        /\ \A j \in m[i]..N : T[j] \notin Removed => k[j - m[i] + i + 1] = l[j]

(* A removed character does not matter, wherever it is *)
RemovedOk ==
  LET l == lv IN
  \A i \in 1..N : T[i] \in Removed =>
    LET U == SubSeq(T, 1, i-1) \o SubSeq(T, i+1, N)
        k == TLCEval(Levels(U, e))
    IN \A j \in 1..N : j # i /\ T[j] \notin Removed => l[j] = k[IF j < i THEN j ELSE j-1]

(* Levels are bounded, and isolates that would exceed them are neutrals     *)
DepthOk ==
  LET m == TLCEval(Matching(T)) x == TLCEval(Explicit(T, e)) l == lv
      over == {i \in 1..N : T[i] \in Initiators /\ i < N /\ x.own[i+1] # i /\ m[i] # i+1}
      U == [i \in 1..N |-> IF i \in over \/ \E j \in over : m[j] = i THEN "ON"
                            ELSE IF T[i] = "FSI" /\ i < N /\ x.own[i+1] = i  \* its direction does not change
                            THEN IF x.lvl[i+1] % 2 = 0 THEN "LRI" ELSE "RLI"
                            ELSE T[i]]
      k == TLCEval(Levels(U, e))
  IN /\ \A i \in 1..N : x.lvl[i] <= MaxDepth
     /\ \A i \in 1..N : T[i] \notin Removed => k[i] = l[i]

(* A character may be repeated as often as one likes (unless it is one which *)
(* comes alone or in pairs): the repetitions are of its level and follow it  *)
(* in its direction, and nothing else changes.  By induction this lets texts *)
(* of any length be judged by short ones (see UAX9Trace).                     *)
Repeatable == {"L", "R", "AL", "EN", "AN", "ET", "NSM", "WS", "S", "ON", "BN"}
StutterOk ==
  LET l == lv v == VisualOrder(T, l, 1, N) IN
  \A i \in 1..N : T[i] \in Repeatable =>
    LET U == InsertAt(T, i, T[i])
        k == TLCEval(Levels(U, e))
        up == [j \in 1..Len(v) |-> IF v[j] > i THEN <<v[j]+1>> ELSE IF v[j] < i THEN <<v[j]>>
                                   ELSE IF l[i] % 2 = 0 THEN <<i, i+1>> ELSE <<i+1, i>>]
    IN  /\ \A j \in 1..(N+1) : U[j] \notin Removed => k[j] = l[IF j > i THEN j-1 ELSE j]
        /\ VisualOrder(U, k, 1, N+1) = FlattenSeq(up)

(* Pairs of brackets nest *)
PairsOk == LET p == TLCEval(Pairs(T)) IN \A a, b \in p : a # b =>
             a[1] # b[1] /\ a[2] # b[2] /\ (a[1] < b[1] /\ b[1] < a[2] => b[2] < a[2])
=============================================================================
