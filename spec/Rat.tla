------------------------------- MODULE Rat -------------------------------
(* Exact rational arithmetic on pairs <<numerator, denominator>>, always in lowest terms. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IAbs(a) == IF a < 0 THEN -a ELSE a

R(n, d) == LET g == Gcd(IAbs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
\* cross-cancel first: intermediate products stay small
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN RZero
              ELSE LET g1 == Gcd(IAbs(a[1]), b[2]) g2 == Gcd(IAbs(b[1]), a[2])
                   IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RNeg(a) == <<-a[1], a[2]>>
RInv(n) == <<1, n>>

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)

\* 1 / (product of the factorials of the entries of s), as a rational
RECURSIVE InvFactProd(_)
InvFactProd(s) == IF s = <<>> THEN ROne ELSE RMul(RInv(Fact(Head(s))), InvFactProd(Tail(s)))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN 0 ELSE LET m == MaxSeq(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))
===========================================================================
