------------------------------- MODULE UcdTrace -------------------------------
(* Observation m = "file": b the characters of a file (of those the reader  *)
(* delivered before it failed); toks what was reported: from, to, f, c and  *)
(* no, the number of the line; more: a field asked for behind the last one; *)
(* fail: the reader fails, err: an error is reported.                       *)
(* m = "big": lines of range r, with any fields; got: the ranges reported;  *)
(* long: number of a line that is too long (0: none).                       *)
EXTENDS Ucd, Chunked
FileOk(o) == LET e == Parse(o.b)
             IN /\ Len(o.toks) = Len(e) /\ o.err = o.fail
                /\ \A i \in 1..Len(e) :
                     /\ o.toks[i].no = e[i].no /\ o.toks[i].from = e[i].item.from /\ o.toks[i].to = e[i].item.to
                     /\ [k \in 1..Len(o.toks[i].f) |-> Trim(o.toks[i].f[k])] = e[i].item.f
                     /\ e[i].item.ty \in {o.toks[i].ty, ""}
                     /\ Trim(o.toks[i].c) = e[i].item.c /\ o.toks[i].more = <<>>
BigOk(o) == o.got = (IF o.long = 0 THEN o.r ELSE SubSeq(o.r, 1, o.long - 1)) /\ o.err = (o.long # 0)
Ok(o)  == o.panic = "" /\ IF o.m = "big" THEN BigOk(o) ELSE FileOk(o)
Why(o) == IF o.m = "big" THEN <<Len(o.r), o.long>> ELSE <<"error", o.fail, Parse(o.b)>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
