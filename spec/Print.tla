-------------------------------- MODULE Print --------------------------------
(***************************************************************************)
(* The printed form of a node is a function of its structure, and an       *)
(* injective one: recorded are groups of nodes that differ in details, as  *)
(* <<structure, texts, texts of an equal node>>, where the texts are those *)
(* of every way to print: operator<<, print(), print() with names.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Workers
VARIABLE c
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

\* TLC does not compare values of different types: structures are compared by their canonical text.
Canon(K) == [i \in 1..Len(K.items) |-> ToString(K.items[i][1])]
Ways == 1..3

Verdict(K) ==
  LET A == Canon(K)
      T(i, w) == K.items[i][2][w]
      I == 1..Len(K.items) IN
  IF \E i \in I, w \in Ways : T(i, w) # K.items[i][3][w] THEN "an equal node is printed differently"
  ELSE IF \E i \in I : T(i, 1) # T(i, 2) THEN "operator<< prints something else"
  ELSE LET bad == {p \in I \X I : p[1] < p[2] /\ A[p[1]] # A[p[2]] /\ \E w \in Ways : T(p[1], w) = T(p[2], w)} IN
       IF bad # {} THEN LET p == CHOOSE p \in bad : TRUE IN
         "different nodes have the same text: " \o ToString(p)
       ELSE "ok"

Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)
Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
