--------------------------- MODULE SimpleWordTrace ---------------------------
(* Observation: t classes of the characters of a text, s segments of the   *)
(* Go code as <<end, penalty>>, o penalties of another breaker that does   *)
(* not care, x whether the segments are the text                           *)
EXTENDS SimpleWord, Chunked
Ok(o)  == o.s = Segments(o.t) /\ o.o = 0 /\ o.x
Why(o) == Segments(o.t)
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
