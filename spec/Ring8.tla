------------------------------- MODULE Ring8 -------------------------------
(***************************************************************************)
(* Exact arithmetic in Z[w], w = exp(i*pi/4), w^4 = -1.                    *)
(* A ring element a + b*w + c*w^2 + d*w^3 is the 4-tuple <<a,b,c,d>>.      *)
(* i = w^2 and sqrt(2) = w - w^3, so every amplitude, matrix entry,        *)
(* expectation value and derivative the specification talks about is       *)
(* x / (sqrt(2)^k * d) with x in Z[w], k >= 0 and d an odd integer: there  *)
(* is no rounding anywhere in the specification.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

R0 == <<0, 0, 0, 0>>
R1 == <<1, 0, 0, 0>>
RI == <<0, 0, 1, 0>>                                             \* i
RInt(m) == <<m, 0, 0, 0>>
RGauss(re, im) == <<re, 0, im, 0>>

RAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
RSub(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4]>>
RNeg(x)    == <<-x[1], -x[2], -x[3], -x[4]>>
RScale(m, x) == <<m * x[1], m * x[2], m * x[3], m * x[4]>>

RMul(x, y) ==
  << x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
     x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
     x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
     x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1] >>

RConj(x) == <<x[1], -x[4], -x[3], -x[2]>>
RTimesI(x) == <<-x[3], -x[4], x[1], x[2]>>
RTimesSqrt2(x) == <<x[2] - x[4], x[1] + x[3], x[2] + x[4], x[3] - x[1]>>

(* divisibility by sqrt(2) and the quotient *)
RDivSqrt2(x) == (x[1] + x[3]) % 2 = 0 /\ (x[2] + x[4]) % 2 = 0
RBySqrt2(x) == <<(x[2] - x[4]) \div 2, (x[1] + x[3]) \div 2,
                 (x[2] + x[4]) \div 2, (x[3] - x[1]) \div 2>>
(* divisibility by an integer p and the quotient *)
RDivInt(p, x) == x[1] % p = 0 /\ x[2] % p = 0 /\ x[3] % p = 0 /\ x[4] % p = 0
RByInt(p, x) == <<x[1] \div p, x[2] \div p, x[3] \div p, x[4] \div p>>

(* w^j *)
ROm(j) == CASE j % 8 = 0 -> <<1, 0, 0, 0>>   [] j % 8 = 1 -> <<0, 1, 0, 0>>
            [] j % 8 = 2 -> <<0, 0, 1, 0>>   [] j % 8 = 3 -> <<0, 0, 0, 1>>
            [] j % 8 = 4 -> <<-1, 0, 0, 0>>  [] j % 8 = 5 -> <<0, -1, 0, 0>>
            [] j % 8 = 6 -> <<0, 0, -1, 0>>  [] j % 8 = 7 -> <<0, 0, 0, -1>>

IsReal(x) == x = RConj(x)
=============================================================================
