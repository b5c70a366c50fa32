------------------------------ MODULE GStringMC ------------------------------
(* Bytes are read one after the other.  Characters are put together from    *)
(* them, and clusters from characters; reading goes on behind an illegal    *)
(* byte as long as there was no legal character, and stops there otherwise. *)
EXTENDS GString, TLC
CONSTANTS MaxLen
Bytes == {65, 13, 10, 204, 194, 129, 255}
VARIABLES b, w,       \* bytes read, those of them that are the start of a character
          stop,       \* TRUE behind the legal text
          start,      \* position of the first legal character or -1
          t, c,       \* classes and ends of the characters
          ends        \* ends of the elements which are complete
vars == <<b, w, stop, start, t, c, ends>>
ClassOf(x) == CASE x = <<13>> -> "CR" [] x = <<10>> -> "LF" [] x = <<204, 129>> -> "Extend"
                [] x = <<194, 129>> -> "Control" [] OTHER -> "Any"
Init == b = <<>> /\ w = <<>> /\ stop = FALSE /\ start = 0-1 /\ t = <<>> /\ c = <<>> /\ ends = {}
Char(x, at) ==
  /\ start' = IF start < 0 THEN at - Len(x) ELSE start
  /\ t' = Append(t, ClassOf(x)) /\ c' = Append(c, at) /\ w' = <<>> /\ stop' = FALSE
  /\ ends' = IF t # <<>> /\ ~NoBreakAt(t', Len(t)) THEN ends \cup {c[Len(c)]} ELSE ends
Read(x) ==
  /\ Len(b) < MaxLen /\ b' = Append(b, x)
  /\ IF stop THEN UNCHANGED <<w, stop, start, t, c, ends>>
     ELSE LET y == Append(w, x)
          IN IF LegalLen(y, 1) = Len(y) THEN Char(y, Len(b) + 1)
             ELSE IF y \in {<<204>>, <<194>>} THEN w' = y /\ UNCHANGED <<stop, start, t, c, ends>>
             ELSE IF start >= 0 THEN w' = <<>> /\ stop' = TRUE /\ UNCHANGED <<start, t, c, ends>>
             ELSE IF LegalLen(<<x>>, 1) = 1 THEN Char(<<x>>, Len(b) + 1)   \* illegal start dropped
             ELSE w' = (IF x \in {204, 194} THEN <<x>> ELSE <<>>) /\ UNCHANGED <<stop, start, t, c, ends>>
Next == \E x \in Bytes : Read(x)
Spec == Init /\ [][Next]_vars
Chars == start = FirstLegal(b) /\ c = CharEnds(b)
Elems == (IF t = <<>> THEN ends ELSE ends \cup {c[Len(c)]}) = Elements(t, c)
=============================================================================
