------------------------------ MODULE TrieHash ------------------------------
(***************************************************************************)
(* A hash trie after Knuth: the children of position p live at link[p] + c *)
(* for category c, where link[p] is the place of their header.  Families   *)
(* overlap; if a child does not fit in, its whole family moves.  Whatever  *)
(* header places are tried, in whatever order, the trie tells exactly the  *)
(* words stored, and each prefix has a place of its own.                   *)
(***************************************************************************)
EXTENDS Trie, TLC
CONSTANTS Size, C, MaxLen, MaxWords
VARIABLES link, sibling, ch,
          stored, frozen
vars == <<link, sibling, ch, stored, frozen>>
Cats   == 1..C
Places == 0..(Size - 1)
Header == C + 1                  \* code of headers
Homes  == (C + 1)..(Size - C - 1)
Words  == UNION {[1..n -> Cats] : n \in 1..MaxLen}
Init == /\ link = [i \in Places |-> 0]
        /\ sibling = [i \in Places |-> IF i = 0 THEN C ELSE IF i <= C THEN i - 1 ELSE 0]
        /\ ch = [i \in Places |-> IF i = 0 THEN Header ELSE IF i <= C THEN i ELSE 0]
        /\ stored = {} /\ frozen = FALSE
RECURSIVE Find(_)
Find(w) == IF Len(w) = 1 THEN w[1]
           ELSE LET p == Find(Front(w))
                    q == link[p] + w[Len(w)]
                IN IF p = 0 \/ link[p] = 0 THEN 0 ELSE IF ch[q] = w[Len(w)] THEN q ELSE 0
(* header and children, by way of the siblings *)
RECURSIVE Fam(_, _)
Fam(h, r) == IF sibling[r] = h THEN {r} ELSE {r} \cup Fam(h, sibling[r])
(* place behind which q belongs *)
RECURSIVE Pred(_, _, _)
Pred(sib, r, q) == IF sib[r] > q THEN Pred(sib, sib[r], q) ELSE r
FirstBorn(p, c) ==
  /\ link[p] = 0
  /\ \E h \in Homes :
       /\ ch[h] = 0 /\ ch[h + c] = 0
       /\ link' = [link EXCEPT ![p] = h, ![h] = p, ![h + c] = 0]
       /\ ch' = [ch EXCEPT ![h] = Header, ![h + c] = c]
       /\ sibling' = [sibling EXCEPT ![h] = h + c, ![h + c] = h]
Sibling(p, c) ==
  LET q == link[p] + c IN
  /\ link[p] # 0 /\ ch[q] = 0
  /\ LET r == Pred(sibling, link[p], q)
     IN sibling' = [sibling EXCEPT ![q] = sibling[r], ![r] = q]
  /\ ch' = [ch EXCEPT ![q] = c] /\ link' = [link EXCEPT ![q] = 0]
Move(p, c) ==
  /\ link[p] # 0 /\ ch[link[p] + c] \notin {0, c}
  /\ \E h \in Homes :
       LET F == Fam(link[p], link[p])
           d == h - link[p]
           New == {r + d : r \in F}
           Kids == {link[r] : r \in {x \in F : link[x] # 0}}  \* who points to a member
           q == h + c
           s2 == [i \in Places |-> IF i \in New THEN sibling[i - d] + d ELSE sibling[i]]
           r == Pred(s2, h, q)
       IN /\ ch[q] = 0 /\ \A x \in F : ch[x + d] = 0
          /\ ch' = [i \in Places |-> IF i = q THEN c ELSE IF i \in New THEN ch[i - d] ELSE IF i \in F THEN 0 ELSE ch[i]]
          /\ link' = [i \in Places |-> IF i = q THEN 0 ELSE IF i \in New THEN link[i - d]
                                       ELSE IF i \in Kids THEN link[i] + d ELSE link[i]]
          /\ sibling' = [s2 EXCEPT ![q] = s2[r], ![r] = q]
Extend(w, c) ==
  /\ ~frozen /\ Member(stored, w) /\ Append(w, c) \notin stored
  /\ stored' = stored \cup {Append(w, c)} /\ UNCHANGED frozen
  /\ LET p == Find(w) IN FirstBorn(p, c) \/ Sibling(p, c) \/ Move(p, c)
Freeze == ~frozen /\ frozen' = TRUE /\ UNCHANGED <<link, sibling, ch, stored>>
Next == Freeze \/ \E w \in {x \in Words : Len(x) < MaxLen}, c \in Cats : Cardinality(stored) < MaxWords /\ Extend(w, c)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Exact    == Closed(stored) /\ \A w \in Words : (Find(w) # 0) = Member(stored, w)
Distinct == \A v, w \in stored \cup {<<c>> : c \in Cats} : v # w => Find(v) # Find(w)
Homed    == \A w \in stored : LET p == Find(Front(w)) IN link[link[p]] = p /\ ch[link[p]] = Header
Family   == \A w \in stored : LET p == Find(Front(w))
                              IN Fam(link[p], link[p]) = {link[p]} \cup {Find(x) : x \in {y \in stored : Front(y) = Front(w)}}
Bounds   == \A w \in stored \cup {<<c>> : c \in Cats} : link[Find(w)] + C < Size
Still    == [][frozen => UNCHANGED vars]_vars
=============================================================================
