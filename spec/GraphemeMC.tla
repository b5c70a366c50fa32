----------------------------- MODULE GraphemeMC -----------------------------
(* Exhaustive check over all texts up to MaxLen: the left-to-right machine *)
(* and the declarative rules agree, and decisions are never revised.       *)
EXTENDS Grapheme, TLC
CONSTANTS MaxLen
VARIABLE text
Init == GInit /\ text = <<>>
Next == \E c \in Classes : Len(text) < MaxLen /\ Read(c) /\ text' = Append(text, c)
Spec == Init /\ [][Next]_<<gvars, text>>

TypeOK == GTypeOK /\ n = Len(text)
Agree == Final = Graphemes(text)
Settled == [][out \subseteq out' /\ out' \ out \subseteq {n}]_<<gvars, text>>
CRLFKept == \A i \in 1..Len(text)-1 : text[i] = "CR" /\ text[i+1] = "LF" => i \notin Graphemes(text)
HardAlone == \A i \in 1..Len(text)-1 : (text[i] \in Hard /\ ~(text[i] = "CR" /\ text[i+1] = "LF"))
                                         => i \in Graphemes(text)
MarksStick == \A i \in 1..Len(text)-1 :
   text[i+1] \in {"Extend", "ZWJ", "SpacingMark"} /\ text[i] \notin Hard => i \notin Graphemes(text)
FlagPairs == \A i \in 1..Len(text)-2 :
   (\A k \in i..i+2 : text[k] = "RI") => Graphemes(text) \cap {i, i+1} # {}
=============================================================================
