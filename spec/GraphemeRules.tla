---------------------------- MODULE GraphemeRules ----------------------------
(***************************************************************************)
(* UAX#29 grapheme cluster boundaries (rules GB1 .. GB999, extended        *)
(* grapheme clusters), stated declaratively: for every position between    *)
(* two characters, looking left as far as necessary.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* Grapheme_Cluster_Break property values, plus "Pict" for                 *)
(* \p{Extended_Pictographic}                                               *)
Classes == {"CR", "LF", "Control", "Extend", "ZWJ", "RI", "Prepend", "SpacingMark",
            "L", "V", "T", "LV", "LVT", "Pict", "Any"}
Hard == {"CR", "LF", "Control"}

RECURSIVE RIs(_, _)
(* number of consecutive regional indicators that end at position i        *)
RIs(t, i) == IF i = 0 THEN 0 ELSE IF t[i] = "RI" THEN 1 + RIs(t, i-1) ELSE 0

RECURSIVE PictBefore(_, _)
(* is position i preceded by Pict Extend* ?                                *)
PictBefore(t, i) == IF i = 0 THEN FALSE
                    ELSE t[i] = "Pict" \/ (t[i] = "Extend" /\ PictBefore(t, i-1))

NoBreakAt(t, i) ==
  LET l == t[i]  r == t[i+1]
  IN IF l = "CR" /\ r = "LF" THEN TRUE                              \* GB3
     ELSE IF l \in Hard \/ r \in Hard THEN FALSE                    \* GB4, GB5
     ELSE \/ l = "L" /\ r \in {"L", "V", "LV", "LVT"}               \* GB6
          \/ l \in {"LV", "V"} /\ r \in {"V", "T"}                  \* GB7
          \/ l \in {"LVT", "T"} /\ r = "T"                          \* GB8
          \/ r \in {"Extend", "ZWJ", "SpacingMark"}                 \* GB9, GB9a
          \/ l = "Prepend"                                          \* GB9b
          \/ l = "ZWJ" /\ r = "Pict" /\ PictBefore(t, i-1)          \* GB11
          \/ l = "RI" /\ r = "RI" /\ RIs(t, i) % 2 = 1              \* GB12, GB13

(* ends of the grapheme clusters of a text *)
Graphemes(t) == {i \in 1..Len(t) : i = Len(t) \/ ~NoBreakAt(t, i)}
=============================================================================
