----------------------------- MODULE SegBigTrace -----------------------------
(* Observation: a text of very long runs of white space and other          *)
(* characters is segmented with the simple word breaker.  runs: their      *)
(* lengths; max: largest segment allowed, or -1; segs: lengths of the      *)
(* segments delivered; err: "" or "long"; same: they are the text.         *)
EXTENDS Chunked, Integers
Fit(o)   == \A i \in 1..Len(o.runs) : o.max < 0 \/ o.runs[i] <= o.max
FirstBad(o) == CHOOSE i \in 1..Len(o.runs) : o.runs[i] > o.max /\ \A j \in 1..i-1 : o.runs[j] <= o.max
Segs(o)  == IF Fit(o) THEN o.runs ELSE SubSeq(o.runs, 1, FirstBad(o) - 1)
Ok(o)  == o.segs = Segs(o) /\ o.err = (IF Fit(o) THEN "" ELSE "long") /\ o.same
Why(o) == <<Segs(o), Fit(o)>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
