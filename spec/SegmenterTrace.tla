--------------------------- MODULE SegmenterTrace ---------------------------
(* Observation: one text given to a segmenter (which may have been in use  *)
(* before).                                                                *)
(*  t    characters of the text                                            *)
(*  fail after how many characters the reader fails (once), or -1          *)
(*  max  largest segment allowed, or -1                                    *)
(*  z    break on zero for primary and secondary breakers                  *)
(*  rep  per character read: <<lam, penalties>> for every breaker          *)
(*  ops  the calls: b bound or -1, ok, seg segment, p penalties, err,      *)
(*       same: Text, Bytes and Runes agree                                 *)
(*  whole the text has to be delivered completely                          *)
(*  init length of segment and penalties told before the first call        *)
(*  late a buffer set after the first call has been accepted               *)
(*  ref  if not empty: what a segmenter never used before answers          *)
EXTENDS Segmenter, Chunked

Reports(o, i) == IF i <= Len(o.rep) THEN o.rep[i] ELSE <<>>
NB(o) == IF Len(o.rep) = 0 THEN 1 ELSE Len(o.rep[1])

(* result of a call: [s, ok, n] *)
RECURSIVE Call(_, _, _)
Call(o, s0, b) ==
  LET s == [s0 EXCEPT !.err = IF @ = "bound" THEN "" ELSE @]
      n == Cut(s, b, NB(o), o.z)
      i == s.pos + 1
  IN IF s.err # "" THEN [s |-> s, n |-> 0, ok |-> FALSE]
     ELSE IF n > 0 THEN IF o.max >= 0 /\ n > o.max THEN [s |-> [s EXCEPT !.err = "long"], n |-> 0, ok |-> FALSE]
                                                   ELSE [s |-> s, n |-> n, ok |-> TRUE]
     ELSE IF BoundMet(s, b) THEN [s |-> [s EXCEPT !.err = "bound"], n |-> 0, ok |-> FALSE]
     ELSE IF s.eot THEN [s |-> [s EXCEPT !.err = IF b # Unbound /\ Front(s) >= b /\ TextLen(s) > 0 THEN "bound" ELSE ""],
                         n |-> 0, ok |-> FALSE]
     ELSE IF o.fail >= 0 /\ i > o.fail THEN [s |-> [s EXCEPT !.err = "fail"], n |-> 0, ok |-> FALSE]
     ELSE IF i <= Len(o.t) THEN Call(o, TLCEval(Push(s, o.t[i], FALSE, Reports(o, i))), b)
     ELSE Call(o, TLCEval(Push(s, 0, TRUE, Reports(o, i))), b)

(* nothing is left, or nothing is known about what is left: both answers will do *)
ErrOk(c, b, e) == \/ e = c.s.err
                  \/ ~c.ok /\ b # Unbound /\ Front(c.s) >= b /\ TextLen(c.s) = 0 /\ {e, c.s.err} = {"", "bound"}
OpOk(c, op) == /\ op.ok = c.ok
               /\ ErrOk(c, op.b, op.err)
               /\ c.ok => /\ op.seg = Runes(c.s.q, c.n)
                          /\ op.same
                          /\ op.p = <<c.s.q[c.n].p0, c.s.q[c.n].p1>>
RECURSIVE Together(_, _)
Together(ops, j) == IF j > Len(ops) THEN <<>>
                    ELSE (IF ops[j].ok THEN ops[j].seg ELSE <<>>) \o Together(ops, j+1)
RECURSIVE Run(_, _, _)
(* number of the first call with a wrong answer, or 0 *)
Run(o, s, j) ==
  IF j > Len(o.ops) THEN 0
  ELSE LET c == TLCEval(Call(o, s, o.ops[j].b))
       IN IF ~OpOk(c, o.ops[j]) THEN j
          ELSE Run(o, IF c.ok THEN TLCEval(Deliver(c.s, c.n)) ELSE c.s, j+1)

RECURSIVE Answers(_, _, _)
Answers(o, s, j) == IF j > Len(o.ops) THEN <<>>
  ELSE LET c == TLCEval(Call(o, s, o.ops[j].b))
       IN <<IF c.ok THEN <<Runes(c.s.q, c.n), c.s.q[c.n].p0, c.s.q[c.n].p1>> ELSE <<"stop", c.s.err>> >>
          \o Answers(o, IF c.ok THEN TLCEval(Deliver(c.s, c.n)) ELSE c.s, j+1)

Ok(o)  == /\ o.panic = ""
          /\ Run(o, Fresh, 1) = 0
          /\ o.whole => Together(o.ops, 1) = o.t
          /\ o.ref = <<>> \/ o.ref = o.ops
          /\ o.init = <<0, 0, 0>>                 \* nothing calculated yet
          /\ ~o.late
Why(o) == <<"call", Run(o, Fresh, 1), "answers", Answers(o, Fresh, 1)>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
