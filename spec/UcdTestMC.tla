------------------------------ MODULE UcdTestMC ------------------------------
(* A reader that takes one character after the other agrees with the notion *)
(* of a test file, and with what a test is made of: for every file.         *)
EXTENDS UcdTest, TLC
CONSTANTS MaxLen
(* what a file is made of *)
Pieces == {<<Div, 32>>, <<Times, 9>>, <<65, 32>>, <<66>>, <<32>>, <<Hash>>, <<LF>>}
VARIABLES todo,  \* rest of a piece that is being read
          n,     \* number of pieces
          text,  \* what has been read
          m,     \* mode: "start", "skip", "test", "comment"
          t, c,  \* characters of the current test and of its comment
          done,  \* tests of the lines that are complete
          ws,    \* word that is being read
          seg, segs, inp   \* current segment, those before, all the code points of the test
vars == <<todo, n, text, m, t, c, done, ws, seg, segs, inp>>
part == <<ws, seg, segs, inp>>
Init == /\ todo = <<>> /\ n = 0 /\ text = <<>> /\ m = "start" /\ t = <<>> /\ c = <<>> /\ done = <<>>
        /\ ws = <<>> /\ seg = <<>> /\ segs = <<>> /\ inp = <<>>
Emitted == IF m \in {"start", "skip"} THEN done
           ELSE Append(done, [t |-> Trim(t), c |-> Trim(c)])
(* of a code point; other words are not judged *)
Value(w) == IF \A i \in 1..Len(w) : HexDigit(w[i]) THEN Number(w) ELSE 0
(* the end of a word *)
WordEnd == /\ ws' = <<>>
           /\ CASE ws = <<>> \/ ws = <<Times>> -> UNCHANGED <<seg, segs, inp>>
                [] ws = <<Div>> -> seg' = <<>> /\ segs' = (IF seg = <<>> THEN segs ELSE Append(segs, seg)) /\ inp' = inp
                [] OTHER -> seg' = Append(seg, Value(ws)) /\ inp' = Append(inp, Value(ws)) /\ segs' = segs
Cleared == ws' = <<>> /\ seg' = <<>> /\ segs' = <<>> /\ inp' = <<>>
Char(x) ==
  /\ text' = Append(text, x)
  /\ CASE x = LF -> m' = "start" /\ t' = <<>> /\ c' = <<>> /\ done' = Emitted /\ Cleared
       [] x # LF /\ m = "skip" -> UNCHANGED <<m, t, c, done>> /\ UNCHANGED part
       [] x # LF /\ m = "start" /\ White(x) -> UNCHANGED <<m, t, c, done>> /\ UNCHANGED part
       [] x # LF /\ m = "start" /\ x = Hash -> m' = "skip" /\ UNCHANGED <<t, c, done>> /\ UNCHANGED part
       [] x # LF /\ m \in {"start", "test"} /\ ~White(x) /\ x # Hash ->
             m' = "test" /\ t' = Append(t, x) /\ ws' = Append(ws, x) /\ UNCHANGED <<c, done, seg, segs, inp>>
       [] m = "test" /\ White(x) -> t' = Append(t, x) /\ WordEnd /\ UNCHANGED <<m, c, done>>
       [] m = "test" /\ x = Hash -> m' = "comment" /\ WordEnd /\ UNCHANGED <<t, c, done>>
       [] x # LF /\ m = "comment" -> c' = Append(c, x) /\ UNCHANGED <<m, t, done>> /\ UNCHANGED part
Next == IF todo # <<>> THEN Char(todo[1]) /\ todo' = Tail(todo) /\ n' = n
        ELSE n < MaxLen /\ \E p \in Pieces : Char(p[1]) /\ todo' = Tail(p) /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Agree == Emitted = Tests(text)
(* at the end of a test that is well formed *)
Parts == LET w == Words(t) IN
         m \in {"test", "comment"} /\ WellFormed(w) /\ ws = <<>> => Input(w) = inp /\ Segments(w) = segs
(* what was divided is what there was *)
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Concat(Tail(l))
Whole == LET w == Words(t) IN WellFormed(w) => Concat(Segments(w)) = Input(w)
=============================================================================
