--------------------------- MODULE LineBreakRules ---------------------------
(***************************************************************************)
(* UAX#14 line break opportunities (Unicode 10, with the regular           *)
(* expression for numbers of rule LB25, as in the annex' test file),       *)
(* stated declaratively: for every position between two characters.        *)
(*                                                                         *)
(* LineBreak states them again, as a machine reading from left to right;   *)
(* LineBreakMC checks that both agree; LineBreakTrace checks the behaviour *)
(* recorded from the Go code against them.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* Line_Break property values; the last line is resolved by rule LB1 into  *)
(* others (SA: a letter of class SA; SAm: a mark of class SA)              *)
Classes == {"BK", "CR", "LF", "NL", "SP", "ZW", "WJ", "GL", "CL", "CP", "EX", "IS", "SY",
            "OP", "QU", "B2", "BA", "CB", "HY", "NS", "BB", "AL", "HL", "ID", "EB", "EM",
            "IN", "NU", "RI", "PR", "PO", "JL", "JV", "JT", "H2", "H3", "ZWJ", "CM",
            "AI", "SA", "SAm", "CJ", "XX"}
Resolve(c) == CASE c \in {"AI", "SA", "XX"} -> "AL" [] c = "SAm" -> "CM" [] c = "CJ" -> "NS"
                [] OTHER -> c
Hard   == {"BK", "CR", "LF", "NL"}
Marks  == {"CM", "ZWJ"}
Alpha  == {"AL", "HL"}
Ideo   == {"ID", "EB", "EM"}
Hangul == {"JL", "JV", "JT", "H2", "H3"}
Affix  == {"PR", "PO"}

(* LB9: does the mark at i belong to the character in front of it?         *)
Sticks(t, i) == t[i] \in Marks /\ i > 1 /\ t[i-1] \notin Hard \cup {"SP", "ZW"}
(* LB10: marks of their own are letters                                    *)
Base(c) == IF c \in Marks THEN "AL" ELSE c

RECURSIVE Bases(_, _, _)
(* the classes of the characters in i..j of t that are no sticking marks   *)
Bases(t, i, j) == IF i > j THEN <<>>
                  ELSE (IF Sticks(t, i) THEN <<>> ELSE <<Base(t[i])>>) \o Bases(t, i+1, j)

RECURSIVE Before(_, _, _)
(* the last position of s up to i which is not of a class in S, or 0       *)
Before(s, i, S) == IF i = 0 \/ s[i] \notin S THEN i ELSE Before(s, i-1, S)
At(s, i) == IF i = 0 THEN "sot" ELSE s[i]

(* The end of s is  NU (NU | SY | IS)*                                     *)
InNumber(s, i) == \E j \in 1..i : s[j] = "NU" /\ \A k \in j..i : s[k] \in {"NU", "SY", "IS"}

(* no break at the end of s, in front of the bases r                       *)
NoBreakBetween(s, r) ==
  LET n == Len(s)
      a == s[n]
      b == r[1]
      q == At(s, Before(s, n, {"SP"}))    \* the character in front of spaces
  IN  \* mandatory breaks first
      IF a \in {"BK", "LF", "NL"} THEN FALSE              \* LB4, LB5
      ELSE IF a = "CR" THEN b = "LF"                      \* LB5
      ELSE IF b \in Hard \cup {"SP", "ZW"} THEN TRUE      \* LB6, LB7
      ELSE IF q = "ZW" THEN FALSE                         \* LB8
      ELSE IF "WJ" \in {a, b} THEN TRUE                   \* LB11
      ELSE IF a = "GL" THEN TRUE                          \* LB12
      ELSE IF b = "GL" /\ a \notin {"SP", "BA", "HY"} THEN TRUE  \* LB12a
      ELSE IF b \in {"EX", "CL", "CP", "IS", "SY"} THEN TRUE     \* LB13
      ELSE IF q = "OP" THEN TRUE                          \* LB14
      ELSE IF q = "QU" /\ b = "OP" THEN TRUE              \* LB15
      ELSE IF q \in {"CL", "CP"} /\ b = "NS" THEN TRUE    \* LB16
      ELSE IF q = "B2" /\ b = "B2" THEN TRUE              \* LB17
      ELSE IF a = "SP" THEN FALSE                         \* LB18
      ELSE IF "QU" \in {a, b} THEN TRUE                   \* LB19
      ELSE IF "CB" \in {a, b} THEN FALSE                  \* LB20
      ELSE \/ b \in {"BA", "HY", "NS"} \/ a = "BB"        \* LB21
           \/ n > 1 /\ s[n-1] = "HL" /\ a \in {"HY", "BA"}       \* LB21a
           \/ a = "SY" /\ b = "HL"                        \* LB21b
           \/ b = "IN" /\ a \in Alpha \cup Ideo \cup {"EX", "IN", "NU"} \* LB22
           \/ (a \in Alpha /\ b = "NU") \/ (a = "NU" /\ b \in Alpha) \* LB23
           \/ (a = "PR" /\ b \in Ideo) \/ (a \in Ideo /\ b = "PO")   \* LB23a
           \/ (a \in Affix /\ b \in Alpha) \/ (a \in Alpha /\ b \in Affix) \* LB24
           \/ a \in Affix /\ b = "NU"                     \* LB25
           \/ a \in Affix /\ b \in {"OP", "HY"} /\ Len(r) > 1 /\ r[2] = "NU"
           \/ a \in {"OP", "HY"} /\ b = "NU"
           \/ InNumber(s, n) /\ b \in {"NU", "SY", "IS", "CL", "CP", "PO", "PR"}
           \/ n > 1 /\ a \in {"CL", "CP"} /\ InNumber(s, n-1) /\ b \in Affix
           \/ a = "JL" /\ b \in {"JL", "JV", "H2", "H3"}  \* LB26
           \/ a \in {"JV", "H2"} /\ b \in {"JV", "JT"}
           \/ a \in {"JT", "H3"} /\ b = "JT"
           \/ (a \in Hangul /\ b \in {"IN", "PO"}) \/ (a = "PR" /\ b \in Hangul) \* LB27
           \/ a \in Alpha /\ b \in Alpha                  \* LB28
           \/ a = "IS" /\ b \in Alpha                     \* LB29
           \/ a \in Alpha \cup {"NU"} /\ b = "OP"         \* LB30
           \/ a = "CP" /\ b \in Alpha \cup {"NU"}
           \/ a = "RI" /\ b = "RI" /\ (n - Before(s, n, {"RI"})) % 2 = 1 \* LB30a
           \/ a = "EB" /\ b = "EM"                        \* LB30b

Resolved(text) == [i \in 1..Len(text) |-> Resolve(text[i])]
(* LB8a: a ZWJ keeps ideographs and emojis                                 *)
Joins(t, i) == t[i] = "ZWJ" /\ t[i+1] \in Ideo

BreakAt(t, i) == ~Sticks(t, i+1) /\ ~Joins(t, i)
                 /\ ~NoBreakBetween(Bases(t, 1, i), Bases(t, i+1, Len(t)))
LineBreaks(text) == LET t == Resolved(text) IN
                    {i \in 1..Len(t) : i = Len(t) \/ BreakAt(t, i)}
(* LB3, LB4, LB5: lines end here, whatever their lengths                   *)
Mandatory(text) == {i \in 1..Len(text) : i = Len(text) \/ (text[i] \in Hard /\ ~(text[i] = "CR" /\ text[i+1] = "LF"))}
=============================================================================
