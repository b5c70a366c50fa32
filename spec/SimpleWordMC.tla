---------------------------- MODULE SimpleWordMC ----------------------------
(***************************************************************************)
(* The automaton of simplewordbreak.go, connected to the segmenter of      *)
(* Segmenter.tla, finds the segments SimpleWord.tla asks for; re-used for  *)
(* a second text after having met an end of text anywhere.                 *)
(***************************************************************************)
EXTENDS SimpleWord, Segmenter
CONSTANT MaxLen, MaxOld
VARIABLES old, t
B0 == [mt |-> "s", ml |-> [s |-> 0, o |-> 0, e |-> 0], pen |-> <<>>]
(* class e: end of text *)
Step(b, c) ==
  IF c # "e" /\ c = b.mt THEN [b EXCEPT !.pen = <<>>, !.ml[c] = @ + 1]
  ELSE LET p == IF c # b.mt /\ b.ml[b.mt] > 0 THEN <<0, IF b.mt = "s" THEN AfterSpace ELSE BeforeSpace>>
                ELSE <<0, BeforeSpace>>
       IN IF c = "e" THEN [b EXCEPT !.pen = p, !.mt = "e"]
          ELSE [pen |-> p, mt |-> c, ml |-> [[b.ml EXCEPT ![b.mt] = 0] EXCEPT ![c] = 1]]
RECURSIVE Feed(_, _, _)
Feed(b, x, i) == IF i > Len(x) THEN b ELSE Feed(Step(b, x[i]), x, i+1)
Z == <<FALSE, FALSE>>
RECURSIVE Run(_, _, _)
Run(b, s, x) ==
  LET n == Cut(s, Unbound, 1, Z)
  IN IF n > 0 THEN << <<Front(s) + n, s.q[n].p0>> >> \o Run(b, Deliver(s, n), x)
     ELSE IF s.eot THEN <<>>
     ELSE LET c  == IF s.pos < Len(x) THEN x[s.pos+1] ELSE "e"
              b1 == Step(b, c)
          IN Run(b1, Push(s, c, c = "e", << <<b1.ml[b1.mt], b1.pen>> >>), x)
(* the end of the old text *)
Used == Feed(B0, old, 1)
Init == old = <<>> /\ t = <<>>
Next == \/ Len(t) < MaxLen /\ (\E c \in {"s", "o"} : t' = Append(t, c)) /\ old' = old
        \/ t = <<>> /\ Len(old) < MaxOld /\ (\E c \in {"s", "o", "e"} : old' = Append(old, c)) /\ t' = t
Spec == Init /\ [][Next]_<<old, t>>
Right == (old = <<>> \/ old[Len(old)] = "e") => Run(Used, Fresh, t) = Segments(t)
=============================================================================
