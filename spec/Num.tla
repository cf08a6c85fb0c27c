-------------------------------- MODULE Num --------------------------------
(* Natural numbers up to 2^64 and beyond for TLC, whose integers are 32 bit:  *)
(* little-endian sequences of base-10^4 digits without leading zeros.         *)
EXTENDS Naturals, Sequences

B == 10000
Zero == <<>>

RECURSIVE NatN(_)
NatN(i) == IF i = 0 THEN <<>> ELSE <<i % B>> \o NatN(i \div B)

U64Max == <<1615, 955, 737, 6744, 1844>>

RECURSIVE NAdd_(_, _, _)
NAdd_(x, y, c) ==
  IF x = <<>> /\ y = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET a == IF x = <<>> THEN 0 ELSE Head(x)
           b == IF y = <<>> THEN 0 ELSE Head(y)
           t == a + b + c
       IN <<t % B>> \o NAdd_(IF x = <<>> THEN <<>> ELSE Tail(x),
                             IF y = <<>> THEN <<>> ELSE Tail(y), t \div B)
NAdd(x, y) == NAdd_(x, y, 0)

(* x < y : digit count first, then most significant digit first *)
RECURSIVE NLtFrom(_, _, _)
NLtFrom(x, y, i) ==
  IF i = 0 THEN FALSE
  ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE NLtFrom(x, y, i - 1)
NLt(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE NLtFrom(x, y, Len(x))
NLe(x, y) == ~NLt(y, x)
NMin(x, y) == IF NLt(x, y) THEN x ELSE y

RECURSIVE Strip(_)
Strip(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Strip(SubSeq(x, 1, Len(x) - 1)) ELSE x

(* x - y for y <= x *)
RECURSIVE NSub_(_, _, _)
NSub_(x, y, c) ==
  IF x = <<>> THEN <<>>
  ELSE LET b == IF y = <<>> THEN 0 ELSE Head(y)
           t == Head(x) - b - c + B
       IN <<t % B>> \o NSub_(Tail(x), IF y = <<>> THEN <<>> ELSE Tail(y), IF t < B THEN 1 ELSE 0)
NSub(x, y) == IF NLe(y, x) THEN Strip(NSub_(x, y, 0)) ELSE <<>>

(* x times a machine number k <= 10^4 *)
RECURSIVE NMul_(_, _, _)
NMul_(x, k, c) ==
  IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Head(x) * k + c IN <<t % B>> \o NMul_(Tail(x), k, t \div B)
NMul(x, k) == Strip(NMul_(x, k, 0))

(* ceiling of x / 10^4 *)
NCeilB(x) == IF x = <<>> THEN <<>>
             ELSE IF Head(x) = 0 THEN Tail(x) ELSE NAdd(Tail(x), <<1>>)

RECURSIVE NVal(_)
NVal(x) == IF x = <<>> THEN 0 ELSE Head(x) + B * NVal(Tail(x))   \* small x only
=============================================================================
