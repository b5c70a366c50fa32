----------------------------- MODULE WordBreak -----------------------------
(***************************************************************************)
(* Word boundaries as a state machine, which reads a text from left to     *)
(* right, one character at a time, keeps at most one pending position (the *)
(* one that waits for the next base character, rules WB6, WB7b, WB12) and  *)
(* never looks back.                                                       *)
(***************************************************************************)
EXTENDS WordBreakRules

(* Operational part: state after having read some characters.              *)
(*   n     number of characters read                                       *)
(*   last  class of the most recent character                              *)
(*   p, pp the most recent base and the base before it                     *)
(*   ri    TRUE iff an odd number of regional indicators ends at base p    *)
(*   pend  0, or a position whose decision waits for the next base         *)
(*   out   set of boundaries decided so far                                *)
VARIABLES n, last, p, pp, ri, pend, out
wvars == <<n, last, p, pp, ri, pend, out>>

WInit == n = 0 /\ last = "none" /\ p = "none" /\ pp = "none" /\ ri = FALSE
         /\ pend = 0 /\ out = {}

(* does reading c confirm that there is no boundary at the pending one?    *)
PendJoined(c) == \/ pp \in AHLetter /\ p \in MidLet /\ c \in AHLetter
                 \/ pp = "Hebrew" /\ p = "DQ" /\ c = "Hebrew"
                 \/ pp = "Numeric" /\ p \in MidNumQ /\ c = "Numeric"

Undecided(c) == \/ p \in AHLetter /\ c \in MidLet /\ ~(p = "Hebrew" /\ c = "SQ")
                \/ p = "Hebrew" /\ c = "DQ"
                \/ p = "Numeric" /\ c \in MidNumQ

Joined(c) == \/ last = "CR" /\ c = "LF"
             \/ last \notin Hard /\ c \notin Hard /\
                \/ last = "ZWJ" /\ c \in Pictures
                \/ last = "WSegSpace" /\ c = "WSegSpace"
                \/ p \in AHLetter /\ c \in AHLetter
                \/ PendJoined(c)
                \/ p = "Hebrew" /\ c = "SQ"
                \/ p = "Numeric" /\ c = "Numeric"
                \/ p \in AHLetter /\ c = "Numeric"
                \/ p = "Numeric" /\ c \in AHLetter
                \/ p = "Katakana" /\ c = "Katakana"
                \/ p \in WordPart \cup {"ExtendNumLet"} /\ c = "ExtendNumLet"
                \/ p = "ExtendNumLet" /\ c \in WordPart
                \/ c = "RI" /\ ri

(* an ignorable character that continues the current base                  *)
ReadIgnorable(c) ==
  /\ c \in Ignorable /\ n > 0 /\ last \notin Hard
  /\ n' = n + 1 /\ last' = c
  /\ UNCHANGED <<p, pp, ri, pend, out>>

(* a character that is a base of its own: decides the pending position and *)
(* the one in front of it, unless that has to wait for the next base       *)
ReadBase(c) ==
  /\ c \notin Ignorable \/ n = 0 \/ last \in Hard
  /\ LET settled == out \cup (IF pend > 0 /\ ~PendJoined(c) THEN {pend} ELSE {})
     IN IF n > 0 /\ Undecided(c)
        THEN pend' = n /\ out' = settled
        ELSE /\ pend' = 0
             /\ out' = settled \cup (IF n > 0 /\ ~Joined(c) THEN {n} ELSE {})
  /\ n' = n + 1 /\ last' = c /\ p' = c /\ pp' = p
  /\ ri' = (c = "RI" /\ ~(p = "RI" /\ ri))

Read(c) == ReadIgnorable(c) \/ ReadBase(c)

(* end of text *)
Final == out \cup (IF pend > 0 THEN {pend} ELSE {}) \cup (IF n > 0 THEN {n} ELSE {})

WTypeOK == /\ n \in Nat /\ last \in Classes \cup {"none"}
           /\ p \in Classes \cup {"none"} /\ pp \in Classes \cup {"none"}
           /\ ri \in BOOLEAN /\ pend \in 0..n /\ out \subseteq 1..n
=============================================================================
