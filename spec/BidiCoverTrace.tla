--------------------------- MODULE BidiCoverTrace ---------------------------
(* Observation: n  bytes of the text                                      *)
(*              l  level runs, as <<from, to>>                            *)
(*              s  segments of the reordered runs, as <<from, to>>        *)
(*              ok lengths and directions of runs agree with segments     *)
(*              p  text of a panic, or empty                              *)
EXTENDS Chunked, SequencesExt

(* Level runs are in order; the paragraph is delimited by runs of length 0 *)
Contiguous(l, n) == /\ l # <<>>
                    /\ l[1][1] = 0 /\ l[Len(l)][2] = n
                    /\ \A i \in 1..Len(l) : l[i][1] <= l[i][2]
                    /\ \A i \in 1..(Len(l)-1) : l[i][2] = l[i+1][1]
(* Segments are not empty, do not overlap, and make up the text            *)
Partition(s, n) == LET q == TLCEval(SortSeq(s, LAMBDA a, b : a[1] < b[1]))
                   IN IF n = 0 THEN s = <<>> ELSE Contiguous(q, n) /\ \A i \in 1..Len(s) : s[i][1] < s[i][2]

Ok(o) == o.p = "" /\ o.ok /\ Contiguous(o.l, o.n) /\ Partition(o.s, o.n)
Why(o) == <<"every byte once, n =", o.n>>

Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
