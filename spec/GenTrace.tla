------------------------------- MODULE GenTrace -------------------------------
(* Generators of tables.  Observation: lines the data lines lo..hi ; c of a *)
(* file in the order of the file; fail: the file cannot be read completely; *)
(* err: the generator reports an error; bad: the output is no Go code.      *)
(* m = "tables": tables as in RangeTable, with name and pub.                *)
(* m = "classes": classes with name, ranges r, own: listed at its own       *)
(* place, str: its name as a string.  m = "brackets": pairs of brackets.    *)
EXTENDS RangeTable, Chunked
Cats(o) == {o.lines[i].c : i \in DOMAIN o.lines}
Sel(o, c) == SelectSeq(o.lines, LAMBDA l : l.c = c)
Range(o, c) == LET s == Sel(o, c) IN Merge([i \in DOMAIN s |-> <<s[i].lo, s[i].hi>>])
Name(o, c) == IF o.pre = "" THEN c ELSE o.pre \o "_" \o c
TablesOk(o) == /\ Len(o.tables) = Cardinality(Cats(o))
               /\ \A c \in Cats(o) : \E i \in DOMAIN o.tables :
                    LET t == o.tables[i] IN t.name = Name(o, c) /\ t.pub /\ WellFormed(t) /\ Denotes(t) = Range(o, c)
ClassesOk(o) == /\ Len(o.classes) = Cardinality(Cats(o))
                /\ \A c \in Cats(o) : \E i \in DOMAIN o.classes :
                     LET k == o.classes[i] IN k.name = c /\ k.own /\ k.str = c \o "Class" /\ Merge(k.r) = Range(o, c)
BracketsOk(o) == LET s == Sel(o, "o") IN o.pairs = [i \in DOMAIN s |-> <<s[i].lo, s[i].hi>>]
Ok(o) == /\ o.err = o.fail /\ o.bad = ""
         /\ \/ o.fail
            \/ o.m = "tables" /\ TablesOk(o)
            \/ o.m = "classes" /\ ClassesOk(o)
            \/ o.m = "brackets" /\ BracketsOk(o)
Why(o) == <<"error", o.fail, IF o.m = "brackets" THEN Sel(o, "o") ELSE [c \in Cats(o) |-> Range(o, c)]>>
Next == Deal \/ Judge(Ok, Why)
Spec == CInit /\ [][Next]_<<ck, ph>>
=============================================================================
