--------------------------- MODULE WordBreakRules ---------------------------
(***************************************************************************)
(* UAX#29 word boundaries (rules WB1 .. WB999), stated declaratively, as   *)
(* the annex does: for every position between two characters, looking left *)
(* and right, skipping the characters which rule WB4 ignores.              *)
(*                                                                         *)
(* WordBreak states them again, as a left-to-right machine; WordBreakMC    *)
(* checks that both agree; WordBreakTrace checks the behaviour recorded    *)
(* from the Go code against them.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* Word_Break property values, plus "Pict" for \p{Extended_Pictographic}   *)
(* without a Word_Break value of its own, and "LePict" for characters that *)
(* are both ALetter and Extended_Pictographic (e.g. U+24C2).               *)
Classes == {"CR", "LF", "Newline", "Extend", "ZWJ", "Format", "RI", "Katakana",
            "Hebrew", "ALetter", "SQ", "DQ", "MidNumLet", "MidLetter", "MidNum",
            "Numeric", "ExtendNumLet", "WSegSpace", "Pict", "LePict", "Other"}

Hard      == {"CR", "LF", "Newline"}
Ignorable == {"Extend", "ZWJ", "Format"}
Pictures  == {"Pict", "LePict"}
AHLetter  == {"ALetter", "Hebrew", "LePict"}
MidLet    == {"MidLetter", "MidNumLet", "SQ"}       \* MidLetter | MidNumLetQ
MidNumQ   == {"MidNum", "MidNumLet", "SQ"}          \* MidNum | MidNumLetQ
WordPart  == AHLetter \cup {"Numeric", "Katakana"}

-----------------------------------------------------------------------------
(* Declarative part                                                        *)

RECURSIVE BaseAt(_, _)
(* index of the base character position j belongs to (WB4); ignorable      *)
(* characters after sot or a hard break are bases of their own             *)
BaseAt(t, j) == IF /\ t[j] \in Ignorable /\ j > 1 /\ t[j-1] \notin Hard
                THEN BaseAt(t, j-1) ELSE j

RECURSIVE NextBase(_, _)
NextBase(t, j) == IF j > Len(t) THEN "none"
                  ELSE IF t[j] \in Ignorable THEN NextBase(t, j+1) ELSE t[j]

RECURSIVE RIRun(_, _)
(* number of consecutive regional indicators that end at base position j   *)
RIRun(t, j) == IF t[j] # "RI" THEN 0
               ELSE IF j = 1 THEN 1 ELSE 1 + RIRun(t, BaseAt(t, j-1))

(* must there be no boundary between t[i] and t[i+1]?                      *)
NoBreakAt(t, i) ==
  LET l  == t[i]
      r  == t[i+1]
      b  == BaseAt(t, i)
      p  == t[b]                                             \* base to the left
      pp == IF b = 1 THEN "none" ELSE t[BaseAt(t, b-1)]      \* and the one before
      nn == NextBase(t, i+2)                                 \* base after r
  IN IF l = "CR" /\ r = "LF" THEN TRUE                                  \* WB3
     ELSE IF l \in Hard \/ r \in Hard THEN FALSE                        \* WB3a, WB3b
     ELSE \/ l = "ZWJ" /\ r \in Pictures                                \* WB3c
          \/ l = "WSegSpace" /\ r = "WSegSpace"                         \* WB3d
          \/ r \in Ignorable                                            \* WB4
          \/ p \in AHLetter /\ r \in AHLetter                           \* WB5
          \/ p \in AHLetter /\ r \in MidLet /\ nn \in AHLetter          \* WB6
          \/ pp \in AHLetter /\ p \in MidLet /\ r \in AHLetter          \* WB7
          \/ p = "Hebrew" /\ r = "SQ"                                   \* WB7a
          \/ p = "Hebrew" /\ r = "DQ" /\ nn = "Hebrew"                  \* WB7b
          \/ pp = "Hebrew" /\ p = "DQ" /\ r = "Hebrew"                  \* WB7c
          \/ p = "Numeric" /\ r = "Numeric"                             \* WB8
          \/ p \in AHLetter /\ r = "Numeric"                            \* WB9
          \/ p = "Numeric" /\ r \in AHLetter                            \* WB10
          \/ pp = "Numeric" /\ p \in MidNumQ /\ r = "Numeric"           \* WB11
          \/ p = "Numeric" /\ r \in MidNumQ /\ nn = "Numeric"           \* WB12
          \/ p = "Katakana" /\ r = "Katakana"                           \* WB13
          \/ p \in WordPart \cup {"ExtendNumLet"} /\ r = "ExtendNumLet" \* WB13a
          \/ p = "ExtendNumLet" /\ r \in WordPart                       \* WB13b
          \/ r = "RI" /\ RIRun(t, b) % 2 = 1                            \* WB15, WB16

(* the boundaries of a text: positions i such that there is a boundary     *)
(* after the i-th character; a non-empty text ends with a boundary (WB2)   *)
WordBreaks(t) == {i \in 1..Len(t) : i = Len(t) \/ ~NoBreakAt(t, i)}

(* boundaries next to a hard break, and those of them directly after one   *)
HardBreaks(t) == {i \in 1..Len(t)-1 :
                    /\ ~(t[i] = "CR" /\ t[i+1] = "LF")
                    /\ t[i] \in Hard \/ t[i+1] \in Hard}
AfterHard(t) == {i \in HardBreaks(t) : t[i] \in Hard}

=============================================================================
