------------------------------ MODULE GString ------------------------------
(***************************************************************************)
(* A grapheme string over bytes b: its elements are the grapheme clusters  *)
(* of the legal text which starts with the first legal character and ends  *)
(* before the first illegal byte that follows.  t: classes of the          *)
(* characters of this text.                                                *)
(***************************************************************************)
EXTENDS GraphemeRules, Utf8, Integers
RECURSIVE Sums(_, _)
Sums(s, l) == IF l = <<>> THEN <<>> ELSE <<s + l[1]>> \o Sums(s + l[1], Tail(l))
(* ends (in bytes) of the characters of the legal text *)
CharEnds(b) == IF FirstLegal(b) < 0 THEN <<>>
               ELSE Sums(FirstLegal(b), LensFrom(b, FirstLegal(b) + 1))
(* ends (in bytes) of the elements *)
Elements(t, c) == {c[i] : i \in Graphemes(t)}
=============================================================================
