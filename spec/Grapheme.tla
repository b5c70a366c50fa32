------------------------------ MODULE Grapheme ------------------------------
(***************************************************************************)
(* Grapheme clusters as a state machine which reads a text from left to    *)
(* right and decides about a boundary as soon as the character after it    *)
(* has been read.                                                          *)
(***************************************************************************)
EXTENDS GraphemeRules

VARIABLES n,     \* number of characters read
          last,  \* the most recent one
          odd,   \* TRUE iff an odd number of regional indicators has been read last
          pict,  \* "no", "pict" (Pict Extend*) or "zwj" (Pict Extend* ZWJ)
          out    \* boundaries found
gvars == <<n, last, odd, pict, out>>

GInit == n = 0 /\ last = "none" /\ odd = FALSE /\ pict = "no" /\ out = {}

Joined(c) == \/ last = "CR" /\ c = "LF"
             \/ last \notin Hard /\ c \notin Hard /\
                \/ last = "L" /\ c \in {"L", "V", "LV", "LVT"}
                \/ last \in {"LV", "V"} /\ c \in {"V", "T"}
                \/ last \in {"LVT", "T"} /\ c = "T"
                \/ c \in {"Extend", "ZWJ", "SpacingMark"}
                \/ last = "Prepend"
                \/ c = "Pict" /\ pict = "zwj"
                \/ c = "RI" /\ odd

Read(c) == /\ n' = n + 1 /\ last' = c
           /\ odd' = (c = "RI" /\ ~odd)
           /\ pict' = CASE c = "Pict" -> "pict"
                        [] c = "Extend" /\ pict = "pict" -> "pict"
                        [] c = "ZWJ" /\ pict = "pict" -> "zwj"
                        [] OTHER -> "no"
           /\ out' = IF n = 0 \/ Joined(c) THEN out ELSE out \cup {n}

Final == IF n = 0 THEN {} ELSE out \cup {n}
GTypeOK == n \in Nat /\ last \in Classes \cup {"none"} /\ odd \in BOOLEAN
           /\ pict \in {"no", "pict", "zwj"} /\ out \subseteq 1..n
=============================================================================
