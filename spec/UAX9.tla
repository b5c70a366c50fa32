-------------------------------- MODULE UAX9 --------------------------------
(***************************************************************************)
(* The Unicode Bidirectional Algorithm (UAX#9) for a paragraph given as    *)
(* the sequence of the bidi classes of its characters: rules P2-P3 (for    *)
(* FSI), X5a-X10, W1-W7, N0-N2, I1-I2 and L2.  One operator per rule, each *)
(* maps a whole isolating run sequence, as the text of UAX#9 does.         *)
(*                                                                         *)
(* Classes are strings.  Brackets are classes of their own: "O" and "O2"   *)
(* are opening brackets of two kinds, "C" and "C2" the closing ones.       *)
(* Embedding characters are ignored by the package (documented), they are  *)
(* treated as removed ones (rule X9).  Thus an isolating run sequence is   *)
(* the text directly inside of an isolate, and both its sos and its eos    *)
(* are of the direction of its own level (rule X10): whatever surrounds it *)
(* has a lower level.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Removed    == {"BN", "LRE", "RLE", "LRO", "RLO", "PDF"}
Initiators == {"LRI", "RLI", "FSI"}
IsoChars   == Initiators \cup {"PDI"}
Openers    == {"O", "O2"}
CloserOf(c) == IF c = "O" THEN "C" ELSE "C2"
Brackets   == {"O", "C", "O2", "C2"}
Neutral    == {"B", "S", "WS", "ON", "LRI", "RLI", "FSI", "PDI"} \cup Brackets
Numbers    == {"EN", "AN"}

Dir(lvl)   == IF lvl % 2 = 0 THEN "L" ELSE "R"
NextEven(l) == IF l % 2 = 0 THEN l+2 ELSE l+1
NextOdd(l)  == IF l % 2 = 0 THEN l+1 ELSE l+2

(* ---- BD9: matching isolate initiators and PDIs ------------------------- *)
(* (0 for an initiator without a PDI; PDIs and initiators only)             *)
MatchStep(acc, i, c) ==
  IF c \in Initiators THEN [acc EXCEPT !.st = Append(@, i)]
  ELSE IF c = "PDI" /\ acc.st # <<>>
       THEN [m |-> [acc.m EXCEPT ![acc.st[Len(acc.st)]] = i], st |-> Front(acc.st)]
       ELSE acc
Matching(T) ==
  FoldLeftDomain(LAMBDA acc, i : TLCEval(MatchStep(acc, i, T[i])),
                 [m |-> TLCEval([i \in 1..Len(T) |-> 0]), st |-> <<>>], T).m

Balanced(T) ==
  LET m == Matching(T)
  IN  \A i \in 1..Len(T) : /\ T[i] \in Initiators => m[i] # 0
                           /\ T[i] = "PDI" => \E j \in 1..(i-1) : m[j] = i

(* ---- P2, P3 for the content of an FSI: 1 or 0 --------------------------- *)
FirstStrong(T, m, from, to) ==
  LET skip == {i \in from..to : \E j \in from..(i-1) : T[j] \in Initiators /\ (m[j] = 0 \/ i < m[j])}
      s    == {i \in from..to : i \notin skip /\ T[i] \in {"L", "R", "AL"}}
  IN  IF s = {} THEN 0
      ELSE LET f == CHOOSE i \in s : \A j \in s : i <= j
           IN IF T[f] = "L" THEN 0 ELSE 1

(* ---- X5a-X6a: levels, and the initiator every character is isolated by -- *)
(* An initiator the levels are exhausted for (BD2) does not isolate, nor do *)
(* those up to its PDI: ov counts them.                                     *)
MaxDepth == 125
XStep(T, m, acc, i) ==
  LET c == T[i]
      top == acc.st[Len(acc.st)]
      sub == IF c = "LRI" THEN NextEven(top.l)
             ELSE IF c = "RLI" THEN NextOdd(top.l)
             ELSE LET to == IF m[i] = 0 THEN Len(T) ELSE m[i] - 1
                  IN IF FirstStrong(T, m, i+1, to) = 0 THEN NextEven(top.l) ELSE NextOdd(top.l)
      here == [acc EXCEPT !.lvl = Append(@, top.l), !.own = Append(@, top.o)]
  IN  IF c \in Initiators
      THEN IF acc.ov > 0 \/ sub > MaxDepth THEN [here EXCEPT !.ov = @ + 1]
           ELSE [here EXCEPT !.st = Append(@, [l |-> sub, o |-> i])]
      ELSE IF c = "PDI" /\ acc.ov > 0 THEN [here EXCEPT !.ov = @ - 1]
      ELSE IF c = "PDI" /\ Len(acc.st) > 1
      THEN LET below == acc.st[Len(acc.st)-1]
           IN [acc EXCEPT !.lvl = Append(@, below.l), !.own = Append(@, below.o), !.st = Front(@)]
      ELSE here
Explicit(T, e) ==
  LET m == TLCEval(Matching(T))
  IN  FoldLeftDomain(LAMBDA acc, i : TLCEval(XStep(T, m, acc, i)),
                     [lvl |-> <<>>, own |-> <<>>, st |-> <<[l |-> e, o |-> 0]>>, ov |-> 0], T)

(* ---- rules for one isolating run sequence s of level direction e -------- *)
W1(s, e) == FoldLeftDomain(LAMBDA acc, i : TLCEval(
     Append(acc, IF s[i] # "NSM" THEN s[i]
                 ELSE IF i = 1 THEN e
                 ELSE IF s[i-1] \in IsoChars THEN "ON"
                 ELSE acc[i-1])), <<>>, s)
(* Brackets keep their class for NSMs following them (see N0): W1 turns an *)
(* NSM after a bracket into ON; N0 will give it the class of the bracket.  *)

(* last strong type before every position *)
StrongBefore(s, e) == FoldLeft(LAMBDA acc, c : TLCEval(
     Append(acc, IF c \in {"L", "R", "AL"} THEN c ELSE acc[Len(acc)])), <<e>>, s)

W2(s, e) == LET b == TLCEval(StrongBefore(s, e))
            IN [i \in 1..Len(s) |-> IF s[i] = "EN" /\ b[i] = "AL" THEN "AN" ELSE s[i]]
W3(s)    == [i \in 1..Len(s) |-> IF s[i] = "AL" THEN "R" ELSE s[i]]
W4(s)    == [i \in 1..Len(s) |->
              IF 1 < i /\ i < Len(s) /\ s[i] = "ES" /\ s[i-1] = "EN" /\ s[i+1] = "EN" THEN "EN"
              ELSE IF 1 < i /\ i < Len(s) /\ s[i] = "CS" /\ s[i-1] \in Numbers /\ s[i+1] = s[i-1] THEN s[i-1]
              ELSE s[i]]
W5(s)    == [i \in 1..Len(s) |->
              IF s[i] = "ET" /\ \E j \in 1..Len(s) : s[j] = "EN" /\
                    \A k \in (IF j < i THEN (j+1)..i ELSE i..(j-1)) : s[k] = "ET"
              THEN "EN" ELSE s[i]]
W6(s)    == [i \in 1..Len(s) |-> IF s[i] \in {"ES", "ET", "CS"} THEN "ON" ELSE s[i]]
W7(s, e) == LET b == TLCEval(StrongBefore(s, e))
            IN [i \in 1..Len(s) |-> IF s[i] = "EN" /\ b[i] = "L" THEN "L" ELSE s[i]]

(* BD16: pairs of brackets.  The stack has room for 63; it ends with the   *)
(* first bracket which does not fit.                                       *)
MaxNesting == 63
PairStep(s, acc, i) ==
  IF acc.over THEN acc
  ELSE IF s[i] \in Openers
  THEN IF Len(acc.st) = MaxNesting THEN [acc EXCEPT !.over = TRUE] ELSE [acc EXCEPT !.st = Append(@, i)]
  ELSE IF s[i] \in {"C", "C2"}
  THEN LET c == {k \in 1..Len(acc.st) : CloserOf(s[acc.st[k]]) = s[i]}
       IN IF c = {} THEN acc
          ELSE LET k == CHOOSE k \in c : \A j \in c : j <= k
               IN [acc EXCEPT !.ps = @ \cup {<<acc.st[k], i>>}, !.st = SubSeq(@, 1, k-1)]
  ELSE acc
Pairs(s) == FoldLeftDomain(LAMBDA acc, i : TLCEval(PairStep(s, acc, i)),
                           [ps |-> {}, st |-> <<>>, over |-> FALSE], s).ps
(* pairs by the position of the opening bracket *)
SortedPairs(s) == SetToSortSeq(Pairs(s), LAMBDA a, b : a[1] < b[1])

Strength(c) == IF c = "L" THEN "L" ELSE IF c \in {"R", "AL", "EN", "AN"} THEN "R" ELSE "none"
Opp(e)      == IF e = "L" THEN "R" ELSE "L"
(* s: classes so far, nsm: positions of characters which were NSM before W1 *)
SetPair(s, p, d, nsm) ==
  [i \in 1..Len(s) |->
     IF i \in {p[1], p[2]} THEN d
     ELSE IF i \in nsm /\ \E q \in {p[1], p[2]} : q < i /\ \A k \in (q+1)..i : k \in nsm THEN d
     ELSE s[i]]
N0Step(s, p, e, nsm) ==
  LET inner == {Strength(s[i]) : i \in (p[1]+1)..(p[2]-1)}
      before == {i \in 1..(p[1]-1) : Strength(s[i]) # "none"}
      ctx    == IF before = {} THEN e
                ELSE Strength(s[CHOOSE i \in before : \A j \in before : j <= i])
  IN  IF e \in inner THEN SetPair(s, p, e, nsm)
      ELSE IF Opp(e) \in inner THEN SetPair(s, p, ctx, nsm)
      ELSE s
N0(s, e, nsm) == FoldLeft(LAMBDA acc, p : TLCEval(N0Step(acc, p, e, nsm)), s, SortedPairs(s))

NI(c) == c \in Neutral
(* strength of the text around position i of a sequence of NIs, or of sos/eos *)
N1N2(s, e) ==
  [i \in 1..Len(s) |->
     IF ~NI(s[i]) THEN s[i]
     ELSE LET lo == {j \in 1..(i-1) : ~NI(s[j])}
              hi == {j \in (i+1)..Len(s) : ~NI(s[j])}
              a  == IF lo = {} THEN e ELSE Strength(s[CHOOSE j \in lo : \A k \in lo : k <= j])
              b  == IF hi = {} THEN e ELSE Strength(s[CHOOSE j \in hi : \A k \in hi : j <= k])
          IN IF a = b THEN a ELSE e]

ResolveSeq(s, e) ==
  \* (TLCEval just makes TLC evaluate a sequence once instead of at every access)
  LET nsm == {i \in 1..Len(s) : s[i] = "NSM"}
      w1 == TLCEval(W1(s, e))
      w2 == TLCEval(W2(w1, e))
      w3 == TLCEval(W3(w2))
      w4 == TLCEval(W4(w3))
      w5 == TLCEval(W5(w4))
      w6 == TLCEval(W6(w5))
      w7 == TLCEval(W7(w6, e))
      \* after W1 an NSM behind a bracket bears the class of the bracket, but is none
      br == TLCEval([i \in 1..Len(s) |-> IF i \in nsm /\ w7[i] \in Brackets THEN "ON" ELSE w7[i]])
      n0 == TLCEval(N0(br, e, nsm))
  IN  TLCEval(N1N2(n0, e))

(* I1, I2 *)
Implicit(l, c) ==
  IF l % 2 = 0 THEN (IF c = "R" THEN l+1 ELSE IF c \in Numbers THEN l+2 ELSE l)
  ELSE (IF c \in {"L", "EN", "AN"} THEN l+1 ELSE l)

(* positions of the isolating run sequence of initiator o (0: outermost)   *)
RunSeq(T, own, o) == SetToSortSeq({i \in 1..Len(T) : own[i] = o /\ T[i] \notin Removed}, <)

(* The level of every character (that of a removed one is of no meaning). *)
Levels(T, e) ==
  LET x  == TLCEval(Explicit(T, e))
      os == {x.own[i] : i \in 1..Len(T)}
      upd == FoldLeft(LAMBDA acc, o :
               LET q == TLCEval(RunSeq(T, x.own, o))
                   l == IF q = <<>> THEN 0 ELSE x.lvl[q[1]]
                   r == ResolveSeq(TLCEval([i \in 1..Len(q) |-> T[q[i]]]), Dir(l))
               IN  FoldLeftDomain(LAMBDA a, i : TLCEval([a EXCEPT ![q[i]] = Implicit(l, r[i])]), acc, q),
             x.lvl, SetToSeq(os))
  IN upd

(* ---- L2: visual order of the positions in seq p, having levels lv ------- *)
RevRuns(p, lv, k) ==  \* reverse every contiguous sequence of levels >= k
  LET step(acc, i) ==
        IF lv[i] >= k THEN [acc EXCEPT !.cur = <<i>> \o @]
        ELSE [out |-> acc.out \o acc.cur \o <<i>>, cur |-> <<>>]
      r == FoldLeft(LAMBDA acc, i : TLCEval(step(acc, i)), [out |-> <<>>, cur |-> <<>>], p)
  IN  r.out \o r.cur
MaxLevel(p, lv) == FoldLeft(LAMBDA m, i : IF lv[i] > m THEN lv[i] ELSE m, 0, p)
RECURSIVE L2From(_, _, _)
L2From(p, lv, k) == IF k = 0 THEN p ELSE L2From(RevRuns(p, lv, k), lv, k-1)
Visual(p, lv) == L2From(p, lv, MaxLevel(p, lv))

(* positions of T from..to which are displayed, in visual order *)
VisualOrder(T, lv, from, to) ==
  LET p == SetToSortSeq({i \in from..to : T[i] \notin Removed}, <)
  IN  SelectSeq(Visual(p, lv), LAMBDA i : T[i] \notin IsoChars)

Shown(T, i) == T[i] \notin Removed /\ T[i] \notin IsoChars
=============================================================================
