--------------------------- MODULE GraphemeTrace ---------------------------
(* Observation: t  classes of the characters of a text,                    *)
(*              b  ends of the segments reported by the Go code            *)
EXTENDS GraphemeRules, Chunked

SetOf(s) == {s[i] : i \in 1..Len(s)}
Ok(o) == SetOf(o.b) = Graphemes(o.t) /\ Len(o.b) = Cardinality(SetOf(o.b))
Why(o) == Graphemes(o.t)

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
