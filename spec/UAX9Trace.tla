----------------------------- MODULE UAX9Trace -----------------------------
(* Observation: t  bidi classes of the characters of a text               *)
(*              e  paragraph level                                        *)
(*              d  direction of every character, or empty                 *)
(*              v  positions of the displayed characters in visual order  *)
(*              w  directions of the runs they have been found in         *)
(*              p  text of a panic, or of another malfunction, or empty   *)
(* Bounds: $NEEDD, $NEEDV tell which of d and v have to be there.         *)
EXTENDS UAX9, Chunked

DirsOk(o, lv) == /\ Len(o.d) = Len(o.t)
                 /\ \A i \in 1..Len(o.t) : Shown(o.t, i) => o.d[i] = lv[i] % 2
OrderOk(o, lv) == o.v = VisualOrder(o.t, lv, 1, Len(o.t))
RunDirsOk(o, lv) == o.w = <<>> \/ \A i \in 1..Len(o.v) : o.w[i] = lv[o.v[i]] % 2

Ok(o) == /\ o.p = ""
         /\ LET lv == TLCEval(Levels(o.t, o.e))
            IN /\ IOEnv.NEEDD = "1" => DirsOk(o, lv)
               /\ IOEnv.NEEDV = "1" => OrderOk(o, lv) /\ RunDirsOk(o, lv)
Why(o) == LET lv == TLCEval(Levels(o.t, o.e))
          IN <<"levels", lv, "visual order", VisualOrder(o.t, lv, 1, Len(o.t))>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
