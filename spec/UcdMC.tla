-------------------------------- MODULE UcdMC --------------------------------
(* A scanner that reads one character after the other, with no look-ahead, *)
(* and the declarative notion of a file agree for all files.               *)
EXTENDS Ucd, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES text,   \* what has been read
          no,     \* number of the current line
          cr,     \* last character was CR
          m,      \* mode: "start", "skip", "from", "dots", "to", "sep", "body", "comment"
          item,   \* item of the current line
          fld,    \* characters of the current field or comment
          toks
vars == <<text, no, cr, m, item, fld, toks>>
Fresh == [ty |-> "singleDataItem", from |-> 0, to |-> 0, f |-> <<>>, c |-> <<>>]
Init == text = <<>> /\ no = 1 /\ cr = FALSE /\ m = "start" /\ item = Fresh /\ fld = <<>> /\ toks = <<>>
(* the item, if the line ended here *)
Closed == IF m = "comment" THEN [item EXCEPT !.c = Trim(fld)]
          ELSE [item EXCEPT !.f = Append(@, Trim(fld))]
Emitted == IF m \in {"start", "skip"} THEN toks ELSE Append(toks, [no |-> no, item |-> Closed])
Same(S) == UNCHANGED S
Char(c) ==
  /\ text' = Append(text, c) /\ cr' = (c = CR)
  /\ IF c = LF /\ cr THEN Same(<<no, m, item, fld, toks>>)
     ELSE IF c \in {LF, CR} THEN /\ toks' = Emitted /\ no' = no + 1 /\ m' = "start" /\ item' = Fresh /\ fld' = <<>>
     ELSE /\ Same(<<no, toks>>)
          /\ CASE m = "skip" -> Same(<<m, item, fld>>)
               (* indentation: blank line, comment line or a field without code point *)
               [] m = "start" /\ White(c) -> m' = "start" /\ fld' = Append(fld, c) /\ Same(item)
               [] m = "start" /\ c = Hash -> m' = "skip" /\ Same(<<item, fld>>)
               [] m = "start" /\ HexDigit(c) /\ fld = <<>> -> m' = "from" /\ item' = [item EXCEPT !.from = HexVal(c), !.to = HexVal(c)] /\ Same(fld)
               [] m = "from" /\ HexDigit(c) -> /\ item' = [item EXCEPT !.from = 16 * @ + HexVal(c), !.to = 16 * @ + HexVal(c)]
                                               /\ Same(<<m, fld>>)
               [] m \in {"start", "from", "dots"} /\ c = Dot /\ fld = <<>> -> m' = "dots" /\ item' = [item EXCEPT !.ty = ""] /\ Same(fld)
               [] m = "dots" /\ HexDigit(c) -> m' = "to" /\ item' = [item EXCEPT !.to = HexVal(c), !.ty = "rangeDataItem"] /\ Same(fld)
               [] m = "to" /\ HexDigit(c) -> item' = [item EXCEPT !.to = 16 * @ + HexVal(c)] /\ Same(<<m, fld>>)
               [] m = "comment" -> fld' = Append(fld, c) /\ Same(<<m, item>>)
               [] m # "comment" /\ c = Hash -> m' = "comment" /\ item' = [item EXCEPT !.f = Append(@, Trim(fld))] /\ fld' = <<>>
               (* a separator in front of the first field *)
               [] m \in {"start", "from", "dots", "to", "sep"} /\ White(c) -> m' = "sep" /\ Same(<<item, fld>>)
               [] m \in {"start", "from", "dots", "to", "sep"} /\ c = Semi -> m' = "body" /\ fld' = <<>> /\ Same(item)
               [] m = "body" /\ c = Semi -> item' = [item EXCEPT !.f = Append(@, Trim(fld))] /\ fld' = <<>> /\ Same(m)
               [] OTHER -> m' = "body" /\ fld' = Append(fld, c) /\ Same(item)
Next == Len(text) < MaxLen /\ \E c \in Alphabet : Char(c)
Spec == Init /\ [][Next]_vars
Agree == Emitted = Parse(text)
=============================================================================
