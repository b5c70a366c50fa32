------------------------------ MODULE SetupMC ------------------------------
(* words need the word and emoji tables, graphemes the grapheme and emoji tables *)
EXTENDS Setup
MCNeeds == [u \in Users |-> IF u \in {"w1", "w2"} THEN <<"word", "emoji">>
                            ELSE IF u \in {"g1", "g2"} THEN <<"grapheme", "emoji">> ELSE <<"emoji">>]
=============================================================================
