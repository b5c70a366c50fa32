--------------------------- MODULE LineBreakTrace ---------------------------
(* Observation: t  classes of the characters of a text,                    *)
(*              b  ends of the segments reported by the Go code,           *)
(*              h  those of them reported as mandatory (penalty <= -10000) *)
EXTENDS LineBreakRules, Chunked
SetOf(s) == {s[i] : i \in 1..Len(s)}
Ok(o) == SetOf(o.b) = LineBreaks(o.t) /\ Len(o.b) = Cardinality(SetOf(o.b))
         /\ SetOf(o.h) = Mandatory(o.t)
Why(o) == <<LineBreaks(o.t), Mandatory(o.t)>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
