--------------------------- MODULE WordBreakTrace ---------------------------
(* Observation: t  classes of the characters of a text,                    *)
(*              b  ends of the segments reported by the Go code (in        *)
(*                 characters, cumulated),                                 *)
(*              h  those of them with a penalty <= -10000 (mandatory): at   *)
(*                 all breaks after CR, LF, Newline, and nowhere else than *)
(*                 next to these                                           *)
EXTENDS WordBreakRules, Chunked

SetOf(s) == {s[i] : i \in 1..Len(s)}
Ok(o) == /\ SetOf(o.b) = WordBreaks(o.t) /\ Len(o.b) = Cardinality(SetOf(o.b))
         /\ AfterHard(o.t) \subseteq SetOf(o.h)
         /\ SetOf(o.h) \subseteq HardBreaks(o.t) \cup {Len(o.t)}
Why(o) == <<WordBreaks(o.t), AfterHard(o.t), HardBreaks(o.t)>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
