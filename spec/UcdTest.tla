------------------------------- MODULE UcdTest -------------------------------
(***************************************************************************)
(* Break test files of the Unicode Character Database.  A line that is not *)
(* blank and not a comment is a test, possibly with a comment:             *)
(*     div 0061 times 0308 div 0062 div  [ # comment ]                     *)
(* where div and times tell whether there is a boundary.                   *)
(***************************************************************************)
EXTENDS Ucd
Div == 247
Times == 215
(* the text of a test and its comment *)
TestLine(l) == LET h == First(l, 1, {Hash})
               IN [t |-> Trim(SubSeq(l, 1, h - 1)), c |-> Trim(SubSeq(l, h + 1, Len(l)))]
RECURSIVE TestsOf(_)
TestsOf(ls) == IF ls = <<>> THEN <<>>
               ELSE (IF Ignored(ls[1]) THEN <<>> ELSE <<TestLine(ls[1])>>) \o TestsOf(Tail(ls))
Tests(s) == TestsOf(Lines(s))
(* the words of a text *)
RECURSIVE Words(_)
Words(s) == LET t == TrimLeft(s)
                W == {j \in 1..Len(t) : White(t[j])}
                e == IF W = {} THEN Len(t) + 1 ELSE CHOOSE j \in W : \A k \in W : j <= k
            IN IF t = <<>> THEN <<>> ELSE <<SubSeq(t, 1, e - 1)>> \o Words(SubSeq(t, e, Len(t)))
Mark(w) == w = <<Div>> \/ w = <<Times>>
(* all the code points of a test, and those between its divisions *)
RECURSIVE Input(_)
Input(ws) == IF ws = <<>> THEN <<>>
             ELSE (IF Mark(ws[1]) THEN <<>> ELSE <<Number(ws[1])>>) \o Input(Tail(ws))
RECURSIVE Segments(_)
Segments(ws) == LET D == {j \in 1..Len(ws) : ws[j] = <<Div>>}
                    d == CHOOSE j \in D : \A k \in D : j <= k
                    s == Input(SubSeq(ws, 1, d - 1))
                IN IF D = {} THEN <<>>
                   ELSE (IF s = <<>> THEN <<>> ELSE <<s>>) \o Segments(SubSeq(ws, d + 1, Len(ws)))
WellFormed(ws) == /\ ws # <<>> /\ ws[1] = <<Div>> /\ ws[Len(ws)] = <<Div>>
                  /\ \A i \in 1..Len(ws) : Mark(ws[i]) \/ \A j \in 1..Len(ws[i]) : HexDigit(ws[i][j])
=============================================================================
