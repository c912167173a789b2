----------------------------- MODULE Arithmetic -----------------------------
(***************************************************************************)
(* What the integer helpers of base/arithmetic.h and the residue classes   *)
(* of base/modulus_remainder.h must compute: exact definitions over the    *)
(* integers.  EDiv, EMod are the Euclidean division and modulo; a residue  *)
(* class <<m, r>> is the set { m * k + r : k \in Int }, a constant if m=0. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

AbsI(x) == IF x < 0 THEN -x ELSE x
EMod(a, b) == IF b = 0 THEN 0 ELSE a % AbsI(b)
EDiv(a, b) == IF b = 0 THEN 0 ELSE IF b > 0 THEN a \div b ELSE -(a \div (-b))
Sign(x) == IF x = 0 THEN 0 ELSE IF x > 0 THEN 1 ELSE -1
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

IsMultiple(x, n) == IF n = 0 THEN x = 0 ELSE x % AbsI(n) = 0
\* The greatest common divisor of non-negative integers (0 of 0 and 0).
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a \div Gcd(a, b)) * b
IsGcd(g, a, b) == /\ IsMultiple(a, g) /\ IsMultiple(b, g) /\ g >= 0 /\ g = Gcd(a, b)

\* Characterizations rather than formulas, where there is one.
IsEDiv(q, a, b) == IF b = 0 THEN q = 0 ELSE 0 <= a - q * b /\ a - q * b < AbsI(b)
IsAlignUp(y, x, n) == IsMultiple(y, n) /\ x <= y /\ y < x + n
IsAlignDown(y, x, n) == IsMultiple(y, n) /\ y <= x /\ x < y + n
\* a / b rounded to nearest (either way from the middle), for b > 0
IsRoundDiv(q, a, b) == AbsI(2 * (a - q * b)) <= b
IsCeilDiv(q, a, b) == a <= q * b /\ q * b < a + b
IsPowerOfTwo(x) == x > 0 /\ \E k \in 0..30 : 2 ^ k = x

InClass(x, c) == IsMultiple(x - c[2], c[1])
Members(c, K) == IF c[1] = 0 THEN {c[2]} ELSE {c[1] * k + c[2] : k \in -K..K}
Op(o, x, z) == CASE o = "+" -> x + z [] o = "-" -> x - z [] o = "*" -> x * z [] o = "/" -> EDiv(x, z) [] o = "%" -> EMod(x, z)
\* The class r of a result holds every result of members of a and b.
ClassHolds(o, a, b, r, K) ==
  CASE o = "|" -> (\A x \in Members(a, K) : InClass(x, r)) /\ (\A z \in Members(b, K) : InClass(z, r))
    [] o = "&" -> \A x \in Members(a, 24) : InClass(x, b) => InClass(x, r)
    [] OTHER -> \A x \in Members(a, K) : \A z \in Members(b, K) : InClass(Op(o, x, z), r)

Stair(x, a, b, c) == EDiv(x + a, b) * c
\* ((x + a1)/b1)*c1 + ((x + a2)/b2)*c2 repeats with the least common multiple of b1 and b2 if the slopes cancel (that is,
\* c1/b1 + c2/b2 = 0), is 0 if b1 = b2 = 0, and has no bounds otherwise unless the factor of what varies is 0.
StairSum(p, x) == Stair(x, p[1], p[2], p[3]) + Stair(x, p[4], p[5], p[6])
Varies(b, c) == b # 0 /\ c # 0
Bounded(p) == LET v1 == Varies(p[2], p[3])
                  v2 == Varies(p[5], p[6]) IN
              IF v1 /\ v2 THEN p[3] * p[5] = -p[6] * p[2] ELSE ~v1 /\ ~v2
Period(p) == Lcm(IF p[2] = 0 THEN 1 ELSE AbsI(p[2]), IF p[5] = 0 THEN 1 ELSE AbsI(p[5]))
StairValues(p) == {StairSum(p, x) : x \in 0..(Period(p) - 1)}
\* r = <<min, max>>, each <<>> (unknown) or <<value>>: exact or unknown.
StairBoundsOk(p, r) ==
  IF ~Bounded(p) THEN r = <<<<>>, <<>>>>
  ELSE LET v == TLCEval(StairValues(p)) IN
       /\ (r[1] # <<>> => r[1][1] \in v /\ \A y \in v : r[1][1] <= y)
       /\ (r[2] # <<>> => r[2][1] \in v /\ \A y \in v : y <= r[2][1])
=============================================================================
