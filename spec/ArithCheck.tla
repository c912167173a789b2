----------------------------- MODULE ArithCheck -----------------------------
(***************************************************************************)
(* Decides recorded results of the integer helpers.  A "row" has a fixed   *)
(* first operand a and the results for all second operands lo..lo+n-1 of   *)
(* an 8-bit (complete) or a small 32/64-bit range; "big" cases are at the  *)
(* limits of 32 and 64 bits and use BigInt; the quotients (witnesses) the  *)
(* driver gives are verified, not believed.                                *)
(***************************************************************************)
EXTENDS Arithmetic, Json, IOUtils
Big == INSTANCE BigInt

CONSTANT Workers
VARIABLE c
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

\* One result. [lo, hi] is the range of the type. Operands for which the result is not defined are allowed anything.
Want(f, a, b, r, lo, hi) ==
  CASE f = "div" -> IF EDiv(a, b) > hi THEN TRUE ELSE IsEDiv(r, a, b)
    [] f = "mod" -> IF b = -1 THEN (a = lo \/ r = 0) ELSE r = EMod(a, b)
    [] f = "divp" -> b <= 0 \/ IsEDiv(r, a, b)
    [] f = "modp" -> b <= 0 \/ r = EMod(a, b)
    [] f = "add_sat" -> r = Clamp(a + b, lo, hi)
    [] f = "sub_sat" -> r = Clamp(a - b, lo, hi)
    [] f = "mul_sat" -> r = Clamp(a * b, lo, hi)
    [] f = "div_sat" -> r = Clamp(EDiv(a, b), lo, hi)
    [] f = "add_of" -> (r = 1) = (a + b # Clamp(a + b, lo, hi))
    [] f = "sub_of" -> (r = 1) = (a - b # Clamp(a - b, lo, hi))
    [] f = "mul_of" -> (r = 1) = (a * b # Clamp(a * b, lo, hi))
    [] f = "add_wo" -> r = IF a + b # Clamp(a + b, lo, hi) THEN 0 ELSE a + b
    [] f = "sub_wo" -> r = IF a - b # Clamp(a - b, lo, hi) THEN 0 ELSE a - b
    [] f = "mul_wo" -> r = IF a * b # Clamp(a * b, lo, hi) THEN 0 ELSE a * b
    [] f = "gcd" -> a < 0 \/ b < 0 \/ IsGcd(r, a, b)
    [] f = "lcm" -> a < 0 \/ b < 0 \/ Lcm(a, b) > hi \/ r = Lcm(a, b)
    [] f = "sign" -> r = Sign(b)
    [] f = "pow2" -> (r = 1) = IsPowerOfTwo(b)
    [] f = "floor_div" -> b <= 0 \/ r = a \div b
    [] f = "ceil_div" -> b <= 0 \/ IsCeilDiv(r, a, b)
    [] f = "round_div" -> b <= 0 \/ IsRoundDiv(r, a, b)
    [] f = "align_up" -> b <= 0 \/ IsAlignUp(r, a, b)
    [] f = "align_down" -> b <= 0 \/ IsAlignDown(r, a, b)
    [] f = "div0" -> r = b
    [] f = "mod0" -> r = b

Row(K) ==
  LET bad == {i \in 1..Len(K.r) : ~Want(K.f, K.a, K.b0 + i - 1, K.r[i], K.lo, K.hi)} IN
  IF bad = {} THEN "ok"
  ELSE LET i == CHOOSE x \in bad : TRUE IN
       K.f \o " is wrong: a=" \o ToString(K.a) \o " b=" \o ToString(K.b0 + i - 1) \o " result=" \o ToString(K.r[i])

Class(K) ==
  LET bad == {i \in 1..Len(K.rs) : ~ClassHolds(K.o, K.a, <<K.rs[i][1], K.rs[i][2]>>, <<K.rs[i][3], K.rs[i][4]>>, K.K)} IN
  IF bad = {} THEN "ok"
  ELSE LET i == CHOOSE x \in bad : TRUE IN
       "the class of " \o K.o \o " misses a result: " \o ToString(<<K.a, K.rs[i]>>)

StairC(K) == IF StairBoundsOk(K.p, K.r) THEN "ok" ELSE "staircase_sum_bounds is wrong: " \o ToString(<<K.p, K.r>>)
Stairs(K) == IF \A i \in 1..Len(K.r) : K.r[i] = Stair(K.x0 + i - 1, K.p[1], K.p[2], K.p[3]) THEN "ok" ELSE "staircase is wrong"

\* ---- beyond 32 bits
BClamp(x, lo, hi) == IF Big!Less(x, lo) THEN lo ELSE IF Big!Less(hi, x) THEN hi ELSE x
BFits(x, K) == Big!Leq(K.lo, x) /\ Big!Leq(x, K.hi)
\* q is the Euclidean quotient of a and b
BQuot(q, a, b) == LET r == Big!Sub(a, Big!Mul(q, b)) IN
                  IF Big!Sgn(b) = 0 THEN q = Big!Zero ELSE Big!Sgn(r) >= 0 /\ Big!Less(r, Big!Abs(b))
One == Big!FromInt(1)
RECURSIVE BPow2(_)
BPow2(k) == IF k = 0 THEN One ELSE Big!Mul(Big!FromInt(2), BPow2(k - 1))
BPowers == {BPow2(k) : k \in 0..63}
BigOk(K) ==
  LET a == K.a
      b == K.b
      r == K.r
      q == K.w[1]
      pos == Big!Sgn(b) > 0 IN
  CASE K.f = "div" -> BQuot(q, a, b) /\ (BFits(q, K) => r = q)
    [] K.f = "mod" -> BQuot(q, a, b) /\ (Big!Sgn(b) = 0 => r = Big!Zero) /\ (Big!Sgn(b) # 0 /\ b # Big!FromInt(-1) => r = Big!Sub(a, Big!Mul(q, b)))
    [] K.f = "divp" -> pos => (BQuot(q, a, b) /\ r = q)
    [] K.f = "modp" -> pos => (BQuot(q, a, b) /\ r = Big!Sub(a, Big!Mul(q, b)))
    [] K.f = "add_sat" -> r = BClamp(Big!Add(a, b), K.lo, K.hi)
    [] K.f = "sub_sat" -> r = BClamp(Big!Sub(a, b), K.lo, K.hi)
    [] K.f = "mul_sat" -> r = BClamp(Big!Mul(a, b), K.lo, K.hi)
    [] K.f = "div_sat" -> BQuot(q, a, b) /\ r = BClamp(q, K.lo, K.hi)
    [] K.f = "add_of" -> (r = One) = ~BFits(Big!Add(a, b), K)
    [] K.f = "sub_of" -> (r = One) = ~BFits(Big!Sub(a, b), K)
    [] K.f = "mul_of" -> (r = One) = ~BFits(Big!Mul(a, b), K)
    [] K.f = "add_wo" -> r = IF BFits(Big!Add(a, b), K) THEN Big!Add(a, b) ELSE Big!Zero
    [] K.f = "sub_wo" -> r = IF BFits(Big!Sub(a, b), K) THEN Big!Sub(a, b) ELSE Big!Zero
    [] K.f = "mul_wo" -> r = IF BFits(Big!Mul(a, b), K) THEN Big!Mul(a, b) ELSE Big!Zero
    \* witnesses: a/g, b/g, and u, v with u*a + v*b = g
    [] K.f = "gcd" -> /\ Big!Sgn(r) >= 0 /\ Big!Mul(K.w[1], r) = a /\ Big!Mul(K.w[2], r) = b
                      /\ Big!Add(Big!Mul(K.w[3], a), Big!Mul(K.w[4], b)) = r
    \* w[5] is the gcd; lcm = (a / g) * b
    [] K.f = "lcm" -> LET l == Big!Mul(K.w[1], b)
                          g == K.w[5] IN
                      /\ Big!Mul(K.w[1], g) = a /\ Big!Mul(K.w[2], g) = b
                      /\ Big!Add(Big!Mul(K.w[3], a), Big!Mul(K.w[4], b)) = g
                      /\ (BFits(l, K) => r = l)
    [] K.f = "floor_div" -> pos => (BQuot(q, a, b) /\ r = q)
    [] K.f = "ceil_div" -> (pos /\ BFits(Big!Sub(Big!Add(a, b), One), K)) =>
                              LET p == Big!Mul(r, b) IN Big!Leq(a, p) /\ Big!Less(p, Big!Add(a, b))
    [] K.f = "round_div" -> (pos /\ BFits(Big!Add(a, b), K)) =>
                              LET d == Big!Sub(a, Big!Mul(r, b)) IN Big!Leq(Big!Abs(Big!Add(d, d)), b)
    [] K.f = "align_up" -> (pos /\ BFits(Big!Sub(Big!Add(a, b), One), K)) => (r = Big!Mul(K.w[2], b) /\ Big!Leq(a, r) /\ Big!Less(r, Big!Add(a, b)))
    [] K.f = "align_down" -> (pos /\ BFits(Big!Sub(a, b), K)) => (r = Big!Mul(q, b) /\ Big!Leq(r, a) /\ Big!Less(a, Big!Add(r, b)))
    [] K.f = "pow2" -> (r = One) = (b \in BPowers)
    [] K.f = "sign" -> r = Big!FromInt(Big!Sgn(b))
BigC(K) == IF BigOk(K) THEN "ok" ELSE K.f \o " is wrong: a=" \o ToString(K.a) \o " b=" \o ToString(K.b) \o " result=" \o ToString(K.r)

\* Residue classes whose numbers do not fit: K.v lists values v (of the exact operation on members given as K.x, K.z with
\* x = ma*i + ra, z = mb*j + rb) and witnesses: v = m*k + r.
BMem(x, cl, k) == x = Big!Add(Big!Mul(cl[1], k), cl[2])
BigClassV(K, t) ==
  LET x == t[1]
      z == t[3] IN
  /\ BMem(x, K.a, t[2]) /\ BMem(z, K.b, t[4])
  /\ CASE K.o = "+" -> t[5] = Big!Add(x, z)
       [] K.o = "-" -> t[5] = Big!Sub(x, z)
       [] K.o = "*" -> t[5] = Big!Mul(x, z)
       [] K.o = "/" -> BQuot(t[5], x, z)
       [] K.o = "%" -> (IF Big!Sgn(z) = 0 THEN t[5] = Big!Zero ELSE BQuot(t[7], x, z) /\ t[5] = Big!Sub(x, Big!Mul(t[7], z)))
       [] K.o = "|" -> t[5] = x \/ t[5] = z
       [] K.o = "&" -> t[5] = x /\ x = z
BigClass(K) ==
  LET bad == {i \in 1..Len(K.v) : ~BigClassV(K, K.v[i])}
      out == {i \in 1..Len(K.v) : ~BMem(K.v[i][5], K.r, K.v[i][6])} IN
  IF bad # {} THEN "harness: a witness is wrong"
  ELSE IF out # {} THEN "the class of " \o K.o \o " misses a result: " \o ToString(<<K.a, K.b, K.r, K.v[CHOOSE i \in out : TRUE]>>)
  ELSE "ok"

\* staircase_sum_bounds with big constants: K.v lists <<x, q1, q2>> with the quotients as witnesses.
BigStairVal(K, t) == Big!Add(Big!Mul(t[2], K.p[3]), Big!Mul(t[3], K.p[6]))
BigStair(K) ==
  LET bad == {i \in 1..Len(K.v) : ~(BQuot(K.v[i][2], Big!Add(K.v[i][1], K.p[1]), K.p[2]) /\ BQuot(K.v[i][3], Big!Add(K.v[i][1], K.p[4]), K.p[5]))}
      vals == {BigStairVal(K, K.v[i]) : i \in 1..Len(K.v)} IN
  IF bad # {} THEN "harness: a witness is wrong"
  ELSE IF K.r[1] # <<>> /\ (\E y \in vals : Big!Less(y, K.r[1][1])) THEN "staircase_sum_bounds: a value below min"
  ELSE IF K.r[2] # <<>> /\ (\E y \in vals : Big!Less(K.r[2][1], y)) THEN "staircase_sum_bounds: a value above max"
  ELSE IF K.r[1] # <<>> /\ K.r[1][1] \notin vals THEN "staircase_sum_bounds: min is not exact"
  ELSE IF K.r[2] # <<>> /\ K.r[2][1] \notin vals THEN "staircase_sum_bounds: max is not exact"
  ELSE "ok"

Verdict(K) == CASE K.k = "row" -> Row(K)
                [] K.k = "class" -> Class(K)
                [] K.k = "stair" -> StairC(K)
                [] K.k = "stairs" -> Stairs(K)
                [] K.k = "big" -> BigC(K)
                [] K.k = "bigclass" -> BigClass(K)
                [] K.k = "bigstair" -> BigStair(K)
Report(i) == LET v == Verdict(Cases[i]) IN IF v = "ok" THEN TRUE ELSE PrintT("V " \o ToString(i) \o " " \o v)
Init == c \in 1..(IF Workers < N THEN Workers ELSE N)
Next == c + Workers <= N /\ c' = c + Workers
Decided == Report(c)
=============================================================================
