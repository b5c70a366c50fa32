------------------------------ MODULE Utf8Trace ------------------------------
(* Observation: b bytes, s position reported (or -1), q length of the       *)
(* prefix reported, x whether it is a prefix of the bytes                   *)
EXTENDS Utf8, Chunked, Integers
First(o) == FirstLegal(o.b)
Ok(o)  == /\ o.s = First(o) /\ o.x
          /\ o.q = (IF First(o) < 0 THEN Len(o.b) ELSE First(o))
Why(o) == First(o)
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
