----------------------------- MODULE EAWidthMC -----------------------------
(* Widths summed up from left to right while a text is read: a keycap adds  *)
(* to the digit in front of it.                                             *)
EXTENDS EAWidth, TLC
CONSTANTS MaxLen
VARIABLES t, c, w, d
vars == <<t, c, w, d>>
(* characters: grapheme class and width class *)
Chars == {<<"Any", "Na">>, <<"Any", "A">>, <<"Any", "W">>, <<"Any", "K">>, <<"Pict", "E">>, <<"RI", "E">>,
          <<"Extend", "VS">>, <<"Extend", "A">>, <<"ZWJ", "Z">>, <<"Control", "Z">>, <<"CR", "N">>, <<"LF", "N">>,
          <<"L", "W">>, <<"V", "N">>, <<"Prepend", "N">>}
Init == t = <<>> /\ c = <<>> /\ w = 0 /\ d \in BOOLEAN
Read(x) == /\ Len(t) < MaxLen
           /\ t' = Append(t, x[1]) /\ c' = Append(c, x[2]) /\ d' = d
           /\ w' = IF t = <<>> \/ Len(t) \in Graphemes(t') THEN w + Base(x[2], d)
                   ELSE IF c[Len(c)] = "K" /\ x[2] = "VS" /\ (Len(t) = 1 \/ (Len(t)-1) \in Graphemes(t)) THEN w + 1
                   ELSE w
Next == \E x \in Chars : Read(x)
Spec == Init /\ [][Next]_vars
Same      == w = StringWidth(t, c, d)
Monotone  == StringWidth(t, c, FALSE) <= StringWidth(t, c, TRUE)
Limits    == w <= 2 * Len(t)
(* a string may be measured in parts *)
Additive  == \A i \in Graphemes(t) :
               i < Len(t) /\ t[i+1] \notin {"RI"} =>
                 w = StringWidth(SubSeq(t, 1, i), SubSeq(c, 1, i), d) + StringWidth(SubSeq(t, i+1, Len(t)), SubSeq(c, i+1, Len(c)), d)
=============================================================================
