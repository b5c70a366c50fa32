----------------------------- MODULE UcdTestTrace -----------------------------
(* Observation m = "file": b the characters of a file; got the tests that    *)
(* were read, with text t and comment c; long: number of the line that is    *)
(* too long (0: none), b ends in front of it; err: an error was reported;    *)
(* again: there was more behind the end.  m = "test": b the text of a test;  *)
(* inp and segs what it is divided into.  m = "missing": there is no file.   *)
EXTENDS UcdTest, Chunked
Same(a, e) == Len(a) = Len(e) /\ \A i \in 1..Len(e) : Trim(a[i].t) = e[i].t /\ Trim(a[i].c) = e[i].c
FileOk(o) == Same(o.got, Tests(o.b)) /\ o.err = (o.long # 0) /\ ~o.again
TestOk(o) == LET w == Words(o.b) IN WellFormed(w) => o.inp = Input(w) /\ o.segs = Segments(w)
Ok(o)  == /\ o.panic = ""
          /\ CASE o.m = "file" -> FileOk(o) [] o.m = "test" -> TestOk(o) [] o.m = "missing" -> o.err
Why(o) == CASE o.m = "file" -> <<"tests", Tests(o.b), "error", o.long # 0>>
            [] o.m = "test" -> <<Input(Words(o.b)), Segments(Words(o.b))>> [] OTHER -> <<"error">>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
