-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Slinky's scalar expressions: abstract syntax (as JSON arrays) and their *)
(* meaning.  e[1] is the operator:                                         *)
(*   ["c",n] ["v",id] ["bf",id,field,dim] ["let",<<<<id,e>>..>>,body]      *)
(*   [op,a,b] for + - * / % min max == != < <= && ||                       *)
(*   ["!",a] ["sel",c,t,f] ["call",name,<<args>>] ["undef"]                *)
(* An environment is a record [v |-> function id -> integer,               *)
(* b |-> function id -> buffer], a buffer being a record with fields base, *)
(* es, dims (a sequence of <<min, max, stride, fold>>, see Buffer).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
B2I(p) == IF p THEN 1 ELSE 0

\* Euclidean division and modulo, total.
EDiv(a, b) == IF b = 0 THEN 0 ELSE IF b > 0 THEN a \div b ELSE -(a \div (-b))
EMod(a, b) == IF b = 0 THEN 0 ELSE a % Abs(b)

BinOps == {"+", "-", "*", "/", "%", "min", "max", "==", "!=", "<", "<="}

Bin(op, a, b) ==
  CASE op = "+" -> a + b
    [] op = "-" -> a - b
    [] op = "*" -> a * b
    [] op = "min" -> MinOf(a, b)
    [] op = "max" -> MaxOf(a, b)
    [] op = "<" -> B2I(a < b)
    [] op = "<=" -> B2I(a <= b)
    [] op = "==" -> B2I(a = b)
    [] op = "!=" -> B2I(a # b)
    [] op = "/" -> EDiv(a, b)
    [] op = "%" -> EMod(a, b)

\* The value of a field of a buffer; dimensions beyond the rank are implicit broadcasts.
FieldOf(buf, field, d) ==
  IF field = "rank" THEN Len(buf.dims)
  ELSE IF field = "elem_size" THEN buf.es
  ELSE IF d >= Len(buf.dims) THEN 0
  ELSE LET x == buf.dims[d + 1] IN
       CASE field = "min" -> x[1] [] field = "max" -> x[2]
         [] field = "stride" -> x[3] [] field = "fold" -> x[4]

\* The base of a buffer of which it does not matter where it begins (see Stmt.tla).
AnyBase == -2000000
\* The address of an element (coordinates may be left out); 0 if there is none.
RECURSIVE AddrAt(_, _, _)

RECURSIVE Ev(_, _)
AddrAt(b, at, E) ==
  LET n == IF Len(at) < Len(b.dims) THEN Len(at) ELSE Len(b.dims)
      x == [i \in 1..n |-> IF at[i][1] = "undef" THEN b.dims[i][1] ELSE Ev(at[i], E)]
      given == {i \in 1..n : at[i][1] # "undef"}
      inside == \A i \in given : b.dims[i][3] = 0 \/ (b.dims[i][1] <= x[i] /\ x[i] <= b.dims[i][2])
      off(i) == IF i \notin given THEN 0
                ELSE IF b.dims[i][3] # 0 /\ b.dims[i][4] > 0 THEN (x[i] % b.dims[i][4]) * b.dims[i][3]
                ELSE (x[i] - b.dims[i][1]) * b.dims[i][3]
      sum[i \in 0..n] == IF i = 0 THEN 0 ELSE sum[i - 1] + off(i) IN
  IF b.base = AnyBase THEN AnyBase ELSE IF b.base = -1000000 \/ ~inside THEN 0 ELSE b.base + sum[n]
RECURSIVE EvLets(_, _, _)
EvLets(ls, i, E) == IF i > Len(ls) THEN E
                    ELSE EvLets(ls, i + 1, [E EXCEPT !.v = [@ EXCEPT ![ls[i][1]] = Ev(ls[i][2], E)]])
Ev(e, E) ==
  LET k == e[1] IN
  IF k = "c" THEN e[2]
  ELSE IF k = "v" THEN E.v[e[2]]
  ELSE IF k \in BinOps THEN Bin(k, Ev(e[2], E), Ev(e[3], E))
  ELSE IF k = "sel" THEN IF Ev(e[2], E) # 0 THEN Ev(e[3], E) ELSE Ev(e[4], E)
  ELSE IF k = "&&" THEN B2I(Ev(e[2], E) # 0 /\ Ev(e[3], E) # 0)
  ELSE IF k = "||" THEN B2I(Ev(e[2], E) # 0 \/ Ev(e[3], E) # 0)
  ELSE IF k = "!" THEN B2I(Ev(e[2], E) = 0)
  ELSE IF k = "let" THEN Ev(e[3], EvLets(e[2], 1, E))
  ELSE IF k = "bf" THEN FieldOf(E.b[e[2]], e[3], e[4])
  ELSE IF k = "call" THEN
       CASE e[2] = "abs" -> Abs(Ev(e[3][1], E))
         [] e[2] = "and_then" -> B2I(Ev(e[3][1], E) # 0 /\ Ev(e[3][2], E) # 0)
         [] e[2] = "or_else" -> B2I(Ev(e[3][1], E) # 0 \/ Ev(e[3][2], E) # 0)
         \* a call of a user's function: its first argument identifies the call (see Calls), the value is the sum
         [] e[2] = "user" -> Ev(e[3][1], E) + Ev(e[3][2], E)
         [] e[2] = "buffer_at" -> AddrAt(E.b[e[3][1][2]], SubSeq(e[3], 2, Len(e[3])), E)
  ELSE Assert(FALSE, <<"no meaning", e>>)

\* The user's functions called when e is evaluated, in order.
RECURSIVE Calls(_, _)
RECURSIVE CallsLet(_, _, _, _)
CallsLet(ls, i, body, E) ==
  IF i > Len(ls) THEN Calls(body, E)
  ELSE Calls(ls[i][2], E) \o CallsLet(ls, i + 1, body, [E EXCEPT !.v = [@ EXCEPT ![ls[i][1]] = Ev(ls[i][2], E)]])
Calls(e, E) ==
  LET k == e[1] IN
  IF k \in {"c", "v", "bf"} THEN <<>>
  ELSE IF k \in BinOps \cup {"&&", "||"} THEN Calls(e[2], E) \o Calls(e[3], E)
  ELSE IF k = "sel" THEN Calls(e[2], E) \o (IF Ev(e[2], E) # 0 THEN Calls(e[3], E) ELSE Calls(e[4], E))
  ELSE IF k = "!" THEN Calls(e[2], E)
  ELSE IF k = "let" THEN CallsLet(e[2], 1, e[3], E)
  ELSE IF e[2] = "and_then" THEN Calls(e[3][1], E) \o (IF Ev(e[3][1], E) # 0 THEN Calls(e[3][2], E) ELSE <<>>)
  ELSE IF e[2] = "or_else" THEN Calls(e[3][1], E) \o (IF Ev(e[3][1], E) = 0 THEN Calls(e[3][2], E) ELSE <<>>)
  ELSE IF e[2] = "user" THEN Calls(e[3][2], E) \o <<e[3][1][2]>>
  ELSE Calls(e[3][1], E)

\* Free variables (symbols of buffers included).
RECURSIVE Free(_)
RECURSIVE FreeLet(_, _, _)
FreeLet(ls, i, body) == IF i > Len(ls) THEN Free(body)
                        ELSE Free(ls[i][2]) \cup (FreeLet(ls, i + 1, body) \ {ls[i][1]})
Free(e) ==
  LET k == e[1] IN
  IF k \in {"c", "undef", "auto", "big"} THEN {}
  ELSE IF k \in {"v", "bf"} THEN {e[2]}
  ELSE IF k \in BinOps \cup {"&&", "||"} THEN Free(e[2]) \cup Free(e[3])
  ELSE IF k = "sel" THEN Free(e[2]) \cup Free(e[3]) \cup Free(e[4])
  ELSE IF k = "!" THEN Free(e[2])
  ELSE IF k = "let" THEN FreeLet(e[2], 1, e[3])
  ELSE UNION {Free(e[3][i]) : i \in 1..Len(e[3])}

\* Infinities and indeterminate values may only appear at the top of a bound.
RECURSIVE HasInf(_)
HasInf(e) ==
  LET k == e[1] IN
  IF k \in {"c", "v", "bf", "undef", "auto", "big"} THEN FALSE
  ELSE IF k \in BinOps \cup {"&&", "||"} THEN HasInf(e[2]) \/ HasInf(e[3])
  ELSE IF k = "sel" THEN HasInf(e[2]) \/ HasInf(e[3]) \/ HasInf(e[4])
  ELSE IF k = "!" THEN HasInf(e[2])
  ELSE IF k = "let" THEN HasInf(e[3]) \/ \E i \in 1..Len(e[2]) : HasInf(e[2][i][2])
  ELSE e[2] \in {"+inf", "-inf", "indet"} \/ \E i \in 1..Len(e[3]) : HasInf(e[3][i])
IsInf(e) == e[1] = "call" /\ e[2] \in {"+inf", "-inf", "indet"}

\* An interval bound that says something.
NoBound(e) == e[1] = "undef" \/ IsInf(e)
LowerOk(b, E, x) == IF b[1] = "undef" THEN TRUE
                    ELSE IF IsInf(b) THEN b[2] # "+inf"
                    ELSE Ev(b, E) <= x
UpperOk(b, E, x) == IF b[1] = "undef" THEN TRUE
                    ELSE IF IsInf(b) THEN b[2] # "-inf"
                    ELSE Ev(b, E) >= x
=============================================================================
