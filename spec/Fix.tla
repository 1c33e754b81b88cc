--------------------------------- MODULE Fix ---------------------------------
(* Real numbers with 20 decimals, for the parts of the specification that are *)
(* not integers. A number is seven limbs in base 10^4, the first two before   *)
(* the point: the value of x is sum of x[i] * 10^(4*(2-i)). All limbs but the *)
(* first are in 0..9999, so that the first carries the sign. Products and     *)
(* quotients are rounded down, by less than 2 in the last place. Values stay  *)
(* below 10^6.                                                                *)
EXTENDS Integers, Sequences

Zero == <<0, 0, 0, 0, 0, 0, 0>>
One  == <<0, 1, 0, 0, 0, 0, 0>>
\* the last place
Tiny == <<0, 0, 0, 0, 0, 0, 1>>

\* brings the limbs back into 0..9999
Carry(d) ==
    LET e7 == d[7]
        e6 == d[6] + (e7 \div 10000)
        e5 == d[5] + (e6 \div 10000)
        e4 == d[4] + (e5 \div 10000)
        e3 == d[3] + (e4 \div 10000)
        e2 == d[2] + (e3 \div 10000)
        e1 == d[1] + (e2 \div 10000)
    IN  <<e1, e2 % 10000, e3 % 10000, e4 % 10000, e5 % 10000, e6 % 10000, e7 % 10000>>

FromInt(n) == Carry(<<0, n, 0, 0, 0, 0, 0>>)
\* from a number given with fewer limbs, the first two before the point
Pad(x) == [i \in 1..7 |-> IF i <= Len(x) THEN x[i] ELSE 0]

Add(a, b) == Carry(<<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6], a[7] + b[7]>>)
Sub(a, b) == Carry(<<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7]>>)
Neg(a) == Sub(Zero, a)
\* n below 10^5 in absolute value
MulInt(a, n) == Carry(<<a[1] * n, a[2] * n, a[3] * n, a[4] * n, a[5] * n, a[6] * n, a[7] * n>>)
\* n in 1..200000
DivInt(a, n) ==
    LET r1 == a[1]
        r2 == (r1 % n) * 10000 + a[2]
        r3 == (r2 % n) * 10000 + a[3]
        r4 == (r3 % n) * 10000 + a[4]
        r5 == (r4 % n) * 10000 + a[5]
        r6 == (r5 % n) * 10000 + a[6]
        r7 == (r6 % n) * 10000 + a[7]
    IN  Carry(<<r1 \div n, r2 \div n, r3 \div n, r4 \div n, r5 \div n, r6 \div n, r7 \div n>>)
Ratio(m, n) == DivInt(FromInt(m), n)

Mul(a, b) ==
    LET e8 == a[3] * b[7] + a[4] * b[6] + a[5] * b[5] + a[6] * b[4] + a[7] * b[3]
        e7 == a[2] * b[7] + a[3] * b[6] + a[4] * b[5] + a[5] * b[4] + a[6] * b[3] + a[7] * b[2] + (e8 \div 10000)
        e6 == a[1] * b[7] + a[2] * b[6] + a[3] * b[5] + a[4] * b[4] + a[5] * b[3] + a[6] * b[2] + a[7] * b[1] + (e7 \div 10000)
        e5 == a[1] * b[6] + a[2] * b[5] + a[3] * b[4] + a[4] * b[3] + a[5] * b[2] + a[6] * b[1] + (e6 \div 10000)
        e4 == a[1] * b[5] + a[2] * b[4] + a[3] * b[3] + a[4] * b[2] + a[5] * b[1] + (e5 \div 10000)
        e3 == a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1] + (e4 \div 10000)
        e2 == a[1] * b[3] + a[2] * b[2] + a[3] * b[1] + (e3 \div 10000)
        e1 == a[1] * b[2] + a[2] * b[1] + (e2 \div 10000)
        e0 == a[1] * b[1] + (e1 \div 10000)
    IN  <<e0 * 10000 + (e1 % 10000), e2 % 10000, e3 % 10000, e4 % 10000, e5 % 10000, e6 % 10000, e7 % 10000>>

Leq(a, b) == Sub(a, b)[1] < 0 \/ a = b
Abs(a) == IF a[1] < 0 THEN Neg(a) ELSE a
Max2(a, b) == IF Sub(a, b)[1] < 0 THEN b ELSE a
\* |a - b| <= t
Near(a, b, t) == Sub(Abs(Sub(a, b)), t)[1] < 0 \/ Abs(Sub(a, b)) = t
\* below this the products overflow neither TLC nor the first limb
Small(a) == a[1] \in -100..100
=============================================================================
