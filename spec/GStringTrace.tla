---------------------------- MODULE GStringTrace ----------------------------
(* Observation: m "short": b bytes; m "long": f position of the first legal *)
(*              character, c ends of characters; m "huge": more bytes than  *)
(*              allowed                                                     *)
(*              t classes of the characters                                 *)
(*              n number of elements, e ends of the elements                *)
(*              x the elements put together are the bytes from f to the     *)
(*                last end, and the string returned is the one given        *)
(*              r indices out of range are refused                          *)
(*              p text of a panic, or empty                                 *)
EXTENDS GString, Chunked
SetOf(s) == {s[i] : i \in 1..Len(s)}
Ends(o) == IF o.m = "short" THEN CharEnds(o.b) ELSE o.c
Ok(o) == IF o.m = "huge" THEN o.p # ""
         ELSE /\ o.p = "" /\ o.x /\ o.r
              /\ Assert(Len(Ends(o)) = Len(o.t), <<"text and classes do not match", o>>)
              /\ SetOf(o.e) = Elements(o.t, Ends(o))
              /\ Len(o.e) = Cardinality(SetOf(o.e)) /\ o.n = Len(o.e)
              /\ \A i \in 2..Len(o.e) : o.e[i-1] < o.e[i]
Why(o) == IF o.m = "huge" THEN "refused" ELSE IF o.m = "long" THEN "see spec" ELSE ToString(Elements(o.t, Ends(o)))
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
