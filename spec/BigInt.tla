------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers beyond TLC's 32 bits: <<sign, d1, d2, ...>>, sign in {-1,0,1}, *)
(* digits in base 10000, least significant first, no leading zeros.        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

B == 10000
Zero == <<0>>
Sgn(x) == x[1]
Neg(x) == [x EXCEPT ![1] = -@]
LOCAL Dig(x, i) == IF i + 1 <= Len(x) THEN x[i + 1] ELSE 0
LOCAL ND(x) == Len(x) - 1

WellFormed(x) ==
  /\ Len(x) >= 1 /\ x[1] \in {-1, 0, 1}
  /\ (x[1] = 0) = (Len(x) = 1)
  /\ \A i \in 2..Len(x) : x[i] \in 0..(B - 1)
  /\ Len(x) > 1 => x[Len(x)] # 0

RECURSIVE Trim(_)
LOCAL Trim(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
LOCAL Make(s, d) == LET t == Trim(d) IN IF t = <<>> THEN Zero ELSE <<s>> \o t

\* Compare magnitudes: -1, 0, 1.
RECURSIVE CmpMagFrom(_, _, _)
LOCAL CmpMagFrom(x, y, i) == IF i = 0 THEN 0 ELSE IF Dig(x, i) # Dig(y, i) THEN (IF Dig(x, i) < Dig(y, i) THEN -1 ELSE 1) ELSE CmpMagFrom(x, y, i - 1)
LOCAL MaxN(x, y) == IF ND(x) > ND(y) THEN ND(x) ELSE ND(y)
CmpMag(x, y) == CmpMagFrom(x, y, MaxN(x, y))
Cmp(x, y) == IF Sgn(x) # Sgn(y) THEN (IF Sgn(x) < Sgn(y) THEN -1 ELSE 1) ELSE Sgn(x) * CmpMag(x, y)
Leq(x, y) == Cmp(x, y) <= 0
Less(x, y) == Cmp(x, y) < 0

RECURSIVE AddD(_, _, _, _, _)
LOCAL AddD(x, y, i, carry, acc) ==
  IF i > MaxN(x, y) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == Dig(x, i) + Dig(y, i) + carry IN AddD(x, y, i + 1, s \div B, Append(acc, s % B))
\* |x| - |y| for |x| >= |y|
RECURSIVE SubD(_, _, _, _, _)
LOCAL SubD(x, y, i, borrow, acc) ==
  IF i > ND(x) THEN acc
  ELSE LET s == Dig(x, i) - Dig(y, i) - borrow IN
       IF s < 0 THEN SubD(x, y, i + 1, 1, Append(acc, s + B)) ELSE SubD(x, y, i + 1, 0, Append(acc, s))

Add(x, y) ==
  IF Sgn(x) = 0 THEN y ELSE IF Sgn(y) = 0 THEN x
  ELSE IF Sgn(x) = Sgn(y) THEN Make(Sgn(x), AddD(x, y, 1, 0, <<>>))
  ELSE IF CmpMag(x, y) >= 0 THEN Make(Sgn(x), SubD(x, y, 1, 0, <<>>))
  ELSE Make(Sgn(y), SubD(y, x, 1, 0, <<>>))
Sub(x, y) == Add(x, Neg(y))

\* The sum of the products of digits i and j with i + j = k + 1.
RECURSIVE Conv(_, _, _, _)
LOCAL Conv(x, y, k, i) == IF i > k THEN 0 ELSE Dig(x, i) * Dig(y, k + 1 - i) + Conv(x, y, k, i + 1)
RECURSIVE MulD(_, _, _, _, _)
LOCAL MulD(x, y, k, carry, acc) ==
  IF k > ND(x) + ND(y) THEN acc
  ELSE LET s == Conv(x, y, k, 1) + carry IN MulD(x, y, k + 1, s \div B, Append(acc, s % B))
Mul(x, y) == IF Sgn(x) = 0 \/ Sgn(y) = 0 THEN Zero ELSE Make(Sgn(x) * Sgn(y), MulD(x, y, 1, 0, <<>>))
Abs(x) == IF Sgn(x) < 0 THEN Neg(x) ELSE x

RECURSIVE NatD(_)
LOCAL NatD(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatD(n \div B)
FromInt(n) == IF n = 0 THEN Zero ELSE IF n > 0 THEN <<1>> \o NatD(n) ELSE <<-1>> \o NatD(-n)
=============================================================================
