------------------------------ MODULE LineBreak ------------------------------
(***************************************************************************)
(* Line breaks as a machine that reads a text from left to right, with a   *)
(* bounded memory: the previous base, the base in front of the current     *)
(* spaces, three flags, and at most one position that waits for the next   *)
(* base (a number may follow an opening bracket or a hyphen, LB25).        *)
(***************************************************************************)
EXTENDS LineBreakRules
(*  n     number of characters read          last  the most recent one     *)
(*  p     most recent base                   q     most recent base that is*)
(*                                                 no space                *)
(*  num   "" / "in" (NU (NU|SY|IS)* ends at p) / "closed" (.. CL|CP)       *)
(*  hl    p is a hyphen after a Hebrew letter                              *)
(*  ri    an odd number of regional indicators ends at p                   *)
(*  pend  0, or a position where there is a break unless a digit follows   *)
VARIABLES n, last, p, q, num, hl, ri, pend, out
lvars == <<n, last, p, q, num, hl, ri, pend, out>>
LInit == n = 0 /\ last = "sot" /\ p = "sot" /\ q = "sot" /\ num = "" /\ hl = FALSE
         /\ ri = FALSE /\ pend = 0 /\ out = {}

(* what rules LB21 to LB30b keep together (LB25 with a number read so far) *)
Pairs == ({"AL", "HL"} \X {"AL", "HL", "IN", "NU", "PR", "PO", "OP"})
  \cup ({"NU"} \X {"AL", "HL", "IN", "OP"}) \cup ({"ID", "EB", "EM"} \X {"IN", "PO"})
  \cup ({"PR"} \X {"ID", "EB", "EM", "AL", "HL", "NU", "JL", "JV", "JT", "H2", "H3"})
  \cup ({"PO"} \X {"AL", "HL", "NU"}) \cup {<<"OP", "NU">>, <<"HY", "NU">>}
  \cup ({"EX", "IN"} \X {"IN"}) \cup {<<"SY", "HL">>, <<"EB", "EM">>}
  \cup ({"IS"} \X {"AL", "HL"}) \cup ({"CP"} \X {"AL", "HL", "NU"})
  \cup ({"JL"} \X {"JL", "JV", "H2", "H3"}) \cup ({"JV", "H2"} \X {"JV", "JT"})
  \cup ({"JT", "H3"} \X {"JT"}) \cup ({"JL", "JV", "JT", "H2", "H3"} \X {"IN", "PO"})

Verdict(c) ==
  IF p \in {"BK", "LF", "NL"} \/ (p = "CR" /\ c # "LF") THEN "break"
  ELSE IF c \in Hard \cup {"SP", "ZW"} THEN "keep"
  ELSE IF q = "ZW" THEN "break"
  ELSE IF last = "ZWJ" /\ c \in Ideo THEN "keep"
  ELSE IF p \in {"WJ", "GL"} \/ c = "WJ" \/ (c = "GL" /\ p \notin {"SP", "BA", "HY"}) THEN "keep"
  ELSE IF c \in {"EX", "CL", "CP", "IS", "SY"} \/ q = "OP" THEN "keep"
  ELSE IF <<q, c>> \in {<<"QU", "OP">>, <<"CL", "NS">>, <<"CP", "NS">>, <<"B2", "B2">>} THEN "keep"
  ELSE IF p = "SP" THEN "break"
  ELSE IF p = "QU" \/ c = "QU" THEN "keep"
  ELSE IF p = "CB" \/ c = "CB" THEN "break"
  ELSE IF c \in {"BA", "HY", "NS"} \/ p = "BB" \/ hl \/ <<p, c>> \in Pairs THEN "keep"
  ELSE IF (num = "in" /\ c \in {"NU", "PR", "PO"}) \/ (num = "closed" /\ c \in Affix) THEN "keep"
  ELSE IF c = "RI" /\ ri THEN "keep"
  ELSE IF p \in Affix /\ c = "OP" THEN "wait"
  ELSE "break"

Read(x) ==
  LET c == Base(x)
      v == IF n = 0 THEN "keep" ELSE Verdict(c)
      settled == IF pend > 0 /\ x # "NU" THEN out \cup {pend} ELSE out IN
  /\ n' = n + 1 /\ last' = x
  /\ IF x \in Marks /\ last \notin Hard \cup {"sot", "SP", "ZW"}
     THEN UNCHANGED <<p, q, num, hl, ri, pend, out>>
     ELSE /\ p' = c /\ q' = (IF c = "SP" THEN q ELSE c)
          /\ num' = (IF c = "NU" \/ (num = "in" /\ c \in {"SY", "IS"}) THEN "in"
                     ELSE IF num = "in" /\ c \in {"CL", "CP"} THEN "closed" ELSE "")
          /\ hl' = (p = "HL" /\ c \in {"HY", "BA"})
          /\ ri' = (c = "RI" /\ ~(p = "RI" /\ ri))
          /\ pend' = (IF v = "wait" THEN n ELSE 0)
          /\ out' = settled \cup (IF v = "break" THEN {n} ELSE {})
Final == out \cup (IF pend > 0 THEN {pend} ELSE {}) \cup (IF n > 0 THEN {n} ELSE {})
LTypeOK == n \in Nat /\ pend \in 0..n /\ out \subseteq 1..n /\ hl \in BOOLEAN /\ ri \in BOOLEAN
=============================================================================
