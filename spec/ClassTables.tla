----------------------------- MODULE ClassTables -----------------------------
(***************************************************************************)
(* Classes of code points, kept as a list of tables: the class of a code   *)
(* point is that of the first table it is a member of, or a default.       *)
(* Word and grapheme classes are a partition: at most one table lists a    *)
(* code point.  Emoji classes are properties, a code point may have many.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Order == [wb |-> <<"ALetter", "CR", "DQ", "Extend", "ExtendNumLet", "Format", "Hebrew", "Katakana", "LF", "MidLetter",
                   "MidNum", "MidNumLet", "Newline", "Numeric", "RI", "SQ", "WSegSpace", "ZWJ">>,
          gcb |-> <<"CR", "LF", "Prepend", "Control", "Extend", "RI", "SpacingMark", "L", "V", "T", "LV", "LVT", "ZWJ">>,
          emoji |-> <<"Emoji", "EPres", "EMod", "EBase", "EComp", "ExtPict">>]
Default == [wb |-> "Other", gcb |-> "Any", emoji |-> "none"]
Partition == {"wb", "gcb"}
(* m: set of the tables that list a code point *)
First(p, m) == IF m = {} THEN Default[p]
               ELSE LET i == CHOOSE i \in 1..Len(Order[p]) : Order[p][i] \in m /\ \A j \in 1..(i-1) : Order[p][j] \notin m
                    IN Order[p][i]
Legal(p, m) == p \in Partition => Cardinality(m) <= 1
=============================================================================
