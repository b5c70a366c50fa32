--------------------------------- MODULE Ucd ---------------------------------
(***************************************************************************)
(* Files of the Unicode Character Database, as sequences of characters     *)
(* (code points).  Lines end with LF, CR or CR LF; blank lines and comment *)
(* lines are skipped; a data line is                                       *)
(*     code point [ .. code point ] { ; field } [ # comment ]              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LF == 10
CR == 13
Dot == 46
Semi == 59
Hash == 35
White(c) == c \in {9, 11, 12, 32}
HexDigit(c) == c \in 48..57 \cup 65..70 \cup 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 16 * Number(SubSeq(s, 1, Len(s) - 1)) + HexVal(s[Len(s)])
(* index of the first element of s from i on which is in S; Len(s)+1 if none *)
RECURSIVE First(_, _, _)
First(s, i, S) == IF i > Len(s) \/ s[i] \in S THEN i ELSE First(s, i + 1, S)
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>>
            ELSE LET i == First(s, 1, {LF, CR})
                     n == IF i < Len(s) /\ s[i] = CR /\ s[i+1] = LF THEN i + 2 ELSE i + 1
                 IN <<SubSeq(s, 1, i - 1)>> \o Lines(SubSeq(s, n, Len(s)))
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ White(s[1]) THEN TrimLeft(Tail(s)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ White(s[Len(s)]) THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))
Ignored(l) == Trim(l) = <<>> \/ Trim(l)[1] = Hash
RECURSIVE Split(_)
Split(s) == LET i == First(s, 1, {Semi})
            IN IF i > Len(s) THEN <<Trim(s)>> ELSE <<Trim(SubSeq(s, 1, i - 1))>> \o Split(SubSeq(s, i + 1, Len(s)))
NonHex(l, i) == LET N == {j \in i..Len(l) : ~HexDigit(l[j])} IN IF N = {} THEN Len(l) + 1 ELSE CHOOSE j \in N : \A k \in N : j <= k
NonDot(l, i) == LET N == {j \in i..Len(l) : l[j] # Dot} IN IF N = {} THEN Len(l) + 1 ELSE CHOOSE j \in N : \A k \in N : j <= k
(* a data line; without a code point it is 0 *)
Item(l) == LET a == NonHex(l, 1)
               b == NonDot(l, a)
               c == IF b > a THEN NonHex(l, b) ELSE b
               rest == SubSeq(l, c, Len(l))
               h == First(rest, 1, {Hash})
               body == Trim(SubSeq(rest, 1, h - 1))
               from == Number(SubSeq(l, 1, a - 1))
           IN [from |-> from,
               ty |-> IF b = a THEN "singleDataItem" ELSE IF c > b THEN "rangeDataItem" ELSE "",
               to |-> IF c > b THEN Number(SubSeq(l, b, c - 1)) ELSE from,
               f |-> Split(IF body # <<>> /\ body[1] = Semi THEN Tail(body) ELSE body),
               c |-> Trim(SubSeq(rest, h + 1, Len(rest)))]
RECURSIVE Items(_, _)
(* no: number of the line *)
Items(ls, no) == IF ls = <<>> THEN <<>>
                 ELSE IF Ignored(ls[1]) THEN Items(Tail(ls), no + 1)
                 ELSE <<[no |-> no, item |-> Item(ls[1])]>> \o Items(Tail(ls), no + 1)
Parse(s) == Items(Lines(s), 1)
=============================================================================
