------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* compare() is a total order of nodes, match() is its equality, and nodes *)
(* are equal iff they have the same structure: recorded are groups of      *)
(* nodes that differ in details, as <<structure, how it compares to each   *)
(* node of the group (another copy of it), which of them it matches>>.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANT Workers
VARIABLE c
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

Canon(K) == [i \in 1..Len(K.items) |-> ToString(K.items[i][1])]

Verdict(K) ==
  LET A == Canon(K)
      Cmp(i, j) == K.items[i][2][j]
      I == 1..Len(K.items)
      Pairs == I \X I
      Bad(what, S) == IF S = {} THEN {} ELSE {what \o ToString(CHOOSE p \in S : TRUE)}
      fails ==
        Bad("an equal node compares different: ", {p \in Pairs : A[p[1]] = A[p[2]] /\ Cmp(p[1], p[2]) # 0}) \cup
        Bad("different nodes compare equal: ", {p \in Pairs : A[p[1]] # A[p[2]] /\ Cmp(p[1], p[2]) = 0}) \cup
        Bad("match disagrees with compare: ", {p \in Pairs : (K.items[p[1]][3][p[2]] = 1) # (Cmp(p[1], p[2]) = 0)}) \cup
        Bad("comparison is not antisymmetric: ", {p \in Pairs : Cmp(p[1], p[2]) # -Cmp(p[2], p[1])}) \cup
        Bad("comparison is not transitive: ", {p \in Pairs : Cmp(p[1], p[2]) <= 0 /\ \E k \in I : Cmp(p[2], k) <= 0 /\ Cmp(p[1], k) > 0}) IN
  IF fails = {} THEN "ok" ELSE CHOOSE f \in fails : TRUE

Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)
Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
