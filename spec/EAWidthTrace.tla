---------------------------- MODULE EAWidthTrace ----------------------------
(* Observations: m "text": t grapheme classes, c width classes, d wide      *)
(*                 context, w width of the string, v widths of its          *)
(*                 graphemes measured one by one                            *)
(*               m "bytes": b bytes, w width of them as a grapheme          *)
(*               m "range": code points lo..hi have widths s: narrow, wide, *)
(*                 both with VS behind, both with an accent behind; l: the  *)
(*                 classes of the table for lo..hi (each one once)          *)
EXTENDS EAWidth, Utf8, Chunked
B == <<FALSE, TRUE>>
Six(k) == [i \in 1..6 |-> IF i <= 2 THEN Width(<<k>>, B[i])
                          ELSE IF i <= 4 THEN Width(<<k, "VS">>, B[i-2]) ELSE Width(<<k, "N">>, B[i-4])]
RECURSIVE Add(_)
Add(l) == IF l = <<>> THEN 0 ELSE l[1] + Add(Tail(l))
Ok(o)  == CASE o.m = "text"  -> o.w = StringWidth(o.t, o.c, o.d) /\ Add(o.v) = o.w
            [] o.m = "bytes" -> IF LegalLen(o.b, 1) = 0 THEN o.w = 0 ELSE o.w \in 0..2
            [] o.m = "range" -> \A i \in 1..Len(o.l) : o.s = Six(o.l[i])
Why(o) == CASE o.m = "text"  -> StringWidth(o.t, o.c, o.d)
            [] o.m = "bytes" -> LegalLen(o.b, 1)
            [] o.m = "range" -> {Six(o.l[i]) : i \in 1..Len(o.l)}
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
