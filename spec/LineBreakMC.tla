----------------------------- MODULE LineBreakMC -----------------------------
(* All texts up to MaxLen over Alphabet: rules and machine agree.          *)
EXTENDS LineBreak, TLC
CONSTANTS MaxLen, Alphabet
VARIABLE text
Init == LInit /\ text = <<>>
Next == \E c \in Alphabet : Len(text) < MaxLen /\ Read(c) /\ text' = Append(text, c)
Spec == Init /\ [][Next]_<<lvars, text>>
TypeOK == LTypeOK /\ n = Len(text)
Agree == Final = LineBreaks(text)
(* what is decided stays decided                                           *)
Settled == [][out \subseteq out' /\ out' \cap 1..n \subseteq out \cup {pend, n}]_<<lvars, text>>
(* lines end where they must, and never in front of spaces                 *)
MustBreak == Mandatory(text) \subseteq LineBreaks(text)
NotBeforeSpace == \A i \in 1..Len(text)-1 : text[i+1] \in {"SP", "ZW"} /\ text[i] \notin Hard => i \notin LineBreaks(text)
MarksStick == \A i \in 1..Len(text)-1 : text[i+1] \in Marks /\ text[i] \notin Hard \cup {"SP", "ZW"} => i \notin LineBreaks(text)
=============================================================================
