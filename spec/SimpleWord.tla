----------------------------- MODULE SimpleWord -----------------------------
(***************************************************************************)
(* The simple word breaker.  A text is a sequence of classes "s" (white    *)
(* space) and "o" (other).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

BeforeSpace == 100
AfterSpace  == -100

(* what is asked for: <<end of segment, penalty>> in order *)
EndOfRun(t, i) == i = Len(t) \/ t[i] # t[i+1]
RECURSIVE From(_, _)
From(t, i) == IF i > Len(t) THEN <<>>
              ELSE (IF EndOfRun(t, i) THEN << <<i, IF t[i] = "s" THEN AfterSpace ELSE BeforeSpace>> >> ELSE <<>>)
                   \o From(t, i+1)
Segments(t) == From(t, 1)
=============================================================================
