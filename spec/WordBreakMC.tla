---------------------------- MODULE WordBreakMC ----------------------------
(* Exhaustive check over all texts up to MaxLen: the left-to-right machine *)
(* and the declarative rules agree, and decisions are never revised.       *)
EXTENDS WordBreak, TLC
CONSTANTS MaxLen, Alphabet
VARIABLE text

Init == WInit /\ text = <<>>
Next == \E c \in Alphabet : Len(text) < MaxLen /\ Read(c) /\ text' = Append(text, c)
Spec == Init /\ [][Next]_<<wvars, text>>

TypeOK == WTypeOK /\ n = Len(text)
Agree == Final = WordBreaks(text)
(* what has been decided stays decided, whatever follows *)
Settled == [][out \subseteq out' /\ out' \cap 1..n \subseteq out \cup {pend, n}]_<<wvars, text>>
NoBreakInsideCRLF == \A i \in 1..Len(text)-1 :
                       text[i] = "CR" /\ text[i+1] = "LF" => i \notin WordBreaks(text)
HardAreBreaks == HardBreaks(text) \subseteq WordBreaks(text)
IgnorablesStick == \A i \in 1..Len(text)-1 :
                     text[i+1] \in Ignorable /\ text[i] \notin Hard => i \notin WordBreaks(text)
(* a flag consists of at most two regional indicators *)
FlagPairs == \A i \in 1..Len(text)-2 :
               (text[i] = "RI" /\ text[i+1] = "RI" /\ text[i+2] = "RI")
                 => WordBreaks(text) \cap {i, i+1} # {}
=============================================================================
