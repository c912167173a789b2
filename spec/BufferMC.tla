------------------------------ MODULE BufferMC ------------------------------
(***************************************************************************)
(* Model checks Buffer.tla: every sequence of view operations on every     *)
(* small buffer, with a ghost map from the view's coordinates to those of  *)
(* the original.  The addresses and the bounds must agree with the map.    *)
(***************************************************************************)
EXTENDS Buffer, TLC

CONSTANTS Depth
VARIABLES orig,  \* the buffer it started from
          v,     \* the view
          g,     \* for each dimension of orig: <<"at", x>> or <<"dim", k, o>> (coordinate of view dimension k, minus o)
          lost,  \* whether some slice was out of range
          n

vars == <<orig, v, g, lost, n>>

DimsOf == {<<mn, mn + e - 1, s, f>> : mn \in {-1, 2}, e \in 0..3, s \in {-2, 0, 3}, f \in {-1, 2}}
Init ==
  /\ orig \in {[base |-> 100, es |-> 1, dims |-> <<d, e>>] : d \in DimsOf, e \in DimsOf}
  /\ v = orig /\ g = [i \in 1..2 |-> <<"dim", i, 0>>] /\ lost = FALSE /\ n = 0

After(k) == [i \in 1..2 |-> IF g[i][1] = "dim" /\ g[i][2] > k THEN <<"dim", g[i][2] - 1, g[i][3]>> ELSE g[i]]
DoCrop == \E k \in 1..Rank(v), lo \in -2..3, hi \in -1..4 :
  /\ v' = Crop(v, k, lo, hi)
  /\ UNCHANGED <<g, lost>>
DoSlice == \E k \in 1..Rank(v), at \in -2..4 :
  /\ v' = Slice(v, k, at)
  /\ lost' = (lost \/ ~Contains(v.dims[k], at))
  /\ g' = [i \in 1..2 |-> IF g[i][1] = "dim" /\ g[i][2] = k THEN <<"at", at - g[i][3]>> ELSE After(k)[i]]
DoDrop == \E k \in 1..Rank(v) :
  /\ ~Folded(v.dims[k]) /\ ~Empty(v.dims[k])
  /\ v' = Drop(v, k)
  /\ g' = [i \in 1..2 |-> IF g[i][1] = "dim" /\ g[i][2] = k THEN <<"at", v.dims[k][1] - g[i][3]>> ELSE After(k)[i]]
  /\ UNCHANGED lost
DoTranslate == \E k \in 1..Rank(v), o \in {-2, 2} :
  /\ v' = Translate(v, k, o)
  /\ g' = [i \in 1..2 |-> IF g[i][1] = "dim" /\ g[i][2] = k THEN <<"dim", k, g[i][3] + o>> ELSE g[i]]
  /\ UNCHANGED lost
DoTranspose ==
  /\ Rank(v) = 2
  /\ v' = Transpose(v, <<2, 1>>)
  /\ g' = [i \in 1..2 |-> IF g[i][1] = "dim" THEN <<"dim", 3 - g[i][2], g[i][3]>> ELSE g[i]]
  /\ UNCHANGED lost
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED orig /\ (DoCrop \/ DoSlice \/ DoDrop \/ DoTranslate \/ DoTranspose)
Spec == Init /\ [][Next]_vars

Back(x) == [i \in 1..2 |-> IF g[i][1] = "at" THEN g[i][2] ELSE x[g[i][2]] - g[i][3]]
\* Every coordinate of the view denotes the element of the original that the map says, which is inside the original
\* (dimensions of the original that are broadcasts may be outside of their bounds).
Denotes ==
  /\ \A x \in Coords(v) :
       IF v.base = NULL THEN lost \/ BufEmpty(orig) \/ BufEmpty(v) \/ TRUE
       ELSE InBounds(orig, Back(x)) /\ Addr(v, x) = Addr(orig, Back(x))
  /\ lost /\ ~BufEmpty(v) => v.base = NULL
\* What is not empty and was not sliced out of range still has its elements.
Keeps == (~lost /\ ~BufEmpty(v) /\ ~BufEmpty(orig)) => (v.base # NULL \/ \E i \in 1..2 : g[i][1] = "at")
\* Fusing two dimensions keeps the addresses.
Fuses ==
  (Rank(v) = 2 /\ CanFuse(v.dims[1], v.dims[2]) /\ ~BufEmpty(v) /\ ~(v.dims[2][1] = 0 /\ v.dims[2][2] = 0 /\ v.dims[2][3] = 0)) =>
    LET f == FuseRemove(v, 1, 2)
        k == FuseKeep(v, 1, 2)
        e == Extent(v.dims[1]) IN
    \A x \in Coords(v) :
      LET y == <<x[2] * e + (x[1] - v.dims[1][1])>> IN
      /\ Addr(f, y) = Addr(v, x)
      /\ y[1] \in f.dims[1][1]..f.dims[1][2]
      /\ Addr(k, <<y[1], 0>>) = Addr(v, x)
      /\ Cardinality(Coords(f)) = Cardinality(Coords(v))
=============================================================================
