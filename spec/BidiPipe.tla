------------------------------ MODULE BidiPipe ------------------------------
(***************************************************************************)
(* Scanner and parser of package bidi as concurrent processes: the scanner *)
(* sends scraps through an unbuffered channel, ends with a NULL scrap and  *)
(* closes it; the parser keeps a lookahead of up to 3 scraps and works on  *)
(* the bracket pairs the scanner has recorded (in the order of the text,   *)
(* a scrap is recorded when it becomes the current one, i.e. before it is  *)
(* sent).  Isolates nest: the parser resolves an inner sequence as soon as *)
(* it got its PDI, while the scanner goes on.                              *)
(*                                                                         *)
(* Text: a sequence over "x" (any scrap), "b" (a bracket, which the parser *)
(* looks up when it resolves the sequence), "(" isolate, ")" PDI.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxLen

Texts == UNION {[1..n -> {"x", "b", "(", ")"}] : n \in 0..MaxLen}
NULL == 0

VARIABLES text,
          spc, cur,       \* scanner: its state, index of the current scrap (0: initial one)
          chan, closed,   \* the channel: a sequence of at most one offered scrap
          recorded,       \* indices of the brackets recorded by the scanner
          ppc, stack, sp, \* parser: state, scraps read, how many of them are walked over
          eof, depth,
          looked          \* brackets looked up, with the answer
vars == <<text, spc, cur, chan, closed, recorded, ppc, stack, sp, eof, depth, looked>>

Init == /\ text \in Texts
        /\ spc = "scan" /\ cur = 0 /\ chan = <<>> /\ closed = FALSE /\ recorded = {}
        /\ ppc = "read" /\ stack = <<>> /\ sp = 0 /\ eof = FALSE /\ depth = 0 /\ looked = {}

(* ---- scanner ------------------------------------------------------------ *)
(* The next scrap becomes the lookahead: the current one is complete and is *)
(* to be sent, unless it is the initial one.                                *)
Scan == /\ spc = "scan"
        /\ IF cur # 0 THEN spc' = "send" /\ UNCHANGED <<cur, recorded>>
           ELSE IF text = <<>> THEN spc' = "stop" /\ UNCHANGED <<cur, recorded>>
           ELSE /\ cur' = 1 /\ spc' = "scan2"
                /\ recorded' = recorded \cup (IF text[1] = "b" THEN {1} ELSE {})
        /\ UNCHANGED <<text, chan, closed, ppc, stack, sp, eof, depth, looked>>
Scan2 == /\ spc = "scan2" /\ spc' = "scan"
         /\ UNCHANGED <<text, cur, chan, closed, recorded, ppc, stack, sp, eof, depth, looked>>
Offer == /\ spc = "send" /\ chan = <<>>
         /\ chan' = <<cur>> /\ spc' = "sending"
         /\ UNCHANGED <<text, cur, closed, recorded, ppc, stack, sp, eof, depth, looked>>
Sent == /\ spc = "sending" /\ chan = <<>>      \* the parser took it
        /\ IF cur < Len(text)
           THEN /\ cur' = cur + 1 /\ spc' = "scan"
                /\ recorded' = recorded \cup (IF text[cur+1] = "b" THEN {cur+1} ELSE {})
           ELSE spc' = "stop" /\ UNCHANGED <<cur, recorded>>
        /\ UNCHANGED <<text, chan, closed, ppc, stack, sp, eof, depth, looked>>
Stop == /\ spc = "stop" /\ chan = <<>>
        /\ chan' = <<NULL>> /\ spc' = "stopping"
        /\ UNCHANGED <<text, cur, closed, recorded, ppc, stack, sp, eof, depth, looked>>
Close == /\ spc = "stopping" /\ chan = <<>>
         /\ spc' = "done" /\ closed' = TRUE
         /\ UNCHANGED <<text, cur, chan, recorded, ppc, stack, sp, eof, depth, looked>>

(* ---- parser --------------------------------------------------------------- *)
Read == /\ ppc = "read" /\ ~eof /\ Len(stack) - sp < 3 /\ chan # <<>>
        /\ chan' = <<>>
        /\ IF chan[1] = NULL THEN ppc' = "wait" /\ stack' = stack
           ELSE stack' = Append(stack, chan[1]) /\ ppc' = ppc
        /\ UNCHANGED <<text, spc, cur, closed, recorded, eof, sp, depth, looked>>
(* the scanner closes the channel as its last action: wait for it *)
Wait == /\ ppc = "wait" /\ closed
        /\ ppc' = "read" /\ eof' = TRUE
        /\ UNCHANGED <<text, spc, cur, chan, closed, recorded, stack, sp, depth, looked>>
(* brackets of the innermost open sequence among the first k scraps *)
RECURSIVE Open(_, _)
Open(k, d) == IF k = 0 THEN {}
              ELSE IF text[k] = ")" THEN Open(k-1, d+1)
              ELSE IF text[k] = "(" THEN IF d = 0 THEN {} ELSE Open(k-1, d-1)
              ELSE (IF d = 0 /\ text[k] = "b" THEN {k} ELSE {}) \cup Open(k-1, d)
Walk == /\ ppc = "read" /\ sp < Len(stack) /\ (eof \/ Len(stack) - sp >= 3)
        /\ sp' = sp + 1
        /\ LET c == text[stack[sp+1]]
           IN  IF c = "(" THEN depth' = depth + 1 /\ looked' = looked
               ELSE IF c = ")" /\ depth > 0
                    THEN /\ depth' = depth - 1     \* pass 2 of the inner sequence
                         /\ looked' = looked \cup {<<b, b \in recorded>> : b \in Open(sp, 0)}
               ELSE UNCHANGED <<depth, looked>>
        /\ UNCHANGED <<text, spc, cur, chan, closed, recorded, ppc, stack, eof>>
Finish == /\ ppc = "read" /\ eof /\ sp = Len(stack)
          /\ ppc' = "done"
          /\ looked' = looked \cup {<<b, b \in recorded>> : b \in Open(sp, 0)}
          /\ UNCHANGED <<text, spc, cur, chan, closed, recorded, stack, sp, eof, depth>>

Done == ppc = "done" /\ spc = "done" /\ UNCHANGED vars
ScannerStep == Scan \/ Scan2 \/ Offer \/ Sent \/ Stop \/ Close
ParserStep  == Read \/ Wait \/ Walk \/ Finish
Next == ScannerStep \/ ParserStep \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(ScannerStep) /\ WF_vars(ParserStep)

(* ---- properties ------------------------------------------------------------ *)
InOrder    == stack = [i \in 1..Len(stack) |-> i]
Recorded   == \A l \in looked : l[2]            \* no bracket is looked up too early
Complete   == ppc = "done" => Len(stack) = Len(text)
AtRest     == ppc = "done" => spc = "done"      \* the scanner has come to its end before
Terminates == <>(ppc = "done" /\ spc = "done")  \* no process is left behind
=============================================================================
