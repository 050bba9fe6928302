-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact values of a step function.  A value is a pair <<n, d>>:           *)
(*   d > 0, gcd(|n|,d) = 1   the rational n/d                              *)
(*   <<0, 0>>                 undefined (NaN)                              *)
(*   <<1, 0>>, <<-1, 0>>      +inf / -inf    (only ever observed)          *)
(*   <<2, 0>>, <<3, 0>> ...   a recorded value that is no value of the     *)
(*                            model (not a small rational, not a number)   *)
(* TLC integers are 32 bit: every operation cancels common factors before  *)
(* multiplying.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

NaN == <<0, 0>>
IsNaN(a) == a = <<0, 0>>
IsVal(a) == a[2] > 0 \/ a = <<0, 0>>
Q(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>

Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

\* d # 0
Norm(n, d) ==
    LET g == GCD(Abs(n), Abs(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN << s * (n \div g), s * (d \div g) >>

Neg(a) == IF IsNaN(a) THEN NaN ELSE << -a[1], a[2] >>

Add(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF a[2] = b[2]
         THEN IF a[2] = 1 THEN <<a[1] + b[1], 1>> ELSE Norm(a[1] + b[1], a[2])
         ELSE LET g == GCD(a[2], b[2])
                  p == b[2] \div g
                  q == a[2] \div g
              IN Norm(a[1] * p + b[1] * q, a[2] * p)

Sub(a, b) == Add(a, Neg(b))

Mul(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN NaN
    ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
    ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
    ELSE LET g == GCD(Abs(a[1]), b[2])
             h == GCD(Abs(b[1]), a[2])
         IN << (a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g) >>

Inv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>

\* division by zero is undefined, never infinite
Div(a, b) == IF IsNaN(a) \/ IsNaN(b) \/ b[1] = 0 THEN NaN ELSE Mul(a, Inv(b))

\* strict order of two defined values, by continued fractions (no overflow)
RECURSIVE Lt(_, _)
Lt(a, b) ==
    IF a[2] = b[2] THEN a[1] < b[1]
    ELSE LET qa == a[1] \div a[2]
             qb == b[1] \div b[2]
         IN IF qa # qb THEN qa < qb
            ELSE LET ra == a[1] % a[2]
                     rb == b[1] % b[2]
                 IN IF rb = 0 THEN FALSE
                    ELSE IF ra = 0 THEN TRUE
                    ELSE Lt(<<b[2], rb>>, <<a[2], ra>>)

Le(a, b) == a = b \/ Lt(a, b)

MinV(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF Lt(b, a) THEN b ELSE a
MaxV(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF Lt(a, b) THEN b ELSE a

Ind(b) == IF b THEN One ELSE Zero

\* Rational floor / ceiling of a defined value (as integers)
Floor(a) == a[1] \div a[2]
Ceil(a) == - ((- a[1]) \div a[2])

\* sum of a sequence of values (balanced: keeps recursion shallow)
RECURSIVE SumR(_, _, _)
SumR(s, i, j) ==
    IF i > j THEN Zero
    ELSE IF i = j THEN s[i]
    ELSE LET m == (i + j) \div 2 IN Add(SumR(s, i, m), SumR(s, m + 1, j))
SumV(s) == SumR(s, 1, Len(s))
=============================================================================
