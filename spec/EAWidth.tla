------------------------------ MODULE EAWidth ------------------------------
(***************************************************************************)
(* Display width of characters, graphemes and strings.  Classes:           *)
(*   Z zero width character        E emoji      K digit, '#' or '*'        *)
(*   W East Asian wide or fullwidth             A ambiguous, N neutral     *)
(*   Na narrow or halfwidth        VS variation selector 16 or keycap      *)
(***************************************************************************)
EXTENDS GraphemeRules, Integers
WClasses == {"Z", "E", "K", "W", "A", "N", "Na", "VS"}
Base(c, wide) == CASE c = "Z"         -> 0
                   [] c \in {"E", "W"} -> 2
                   [] c \in {"A", "N"} -> IF wide THEN 2 ELSE 1
                   [] OTHER            -> 1
(* a grapheme, as a sequence of classes *)
Width(g, wide) == IF g = <<>> THEN 0
                  ELSE IF g[1] = "K" /\ Len(g) > 1 /\ g[2] = "VS" THEN 2 ELSE Base(g[1], wide)
(* a text: grapheme classes t, width classes c *)
Starts(t)  == IF t = <<>> THEN {} ELSE {1} \cup {i + 1 : i \in Graphemes(t) \ {Len(t)}}
EndOf(t, i) == CHOOSE j \in Graphemes(t) : j >= i /\ \A k \in Graphemes(t) : k >= i => k >= j
RECURSIVE Sum(_, _, _, _)
Sum(t, c, S, wide) == IF S = {} THEN 0
                      ELSE LET i == CHOOSE x \in S : TRUE
                           IN Width(SubSeq(c, i, EndOf(t, i)), wide) + Sum(t, c, S \ {i}, wide)
StringWidth(t, c, wide) == Sum(t, c, Starts(t), wide)
=============================================================================
