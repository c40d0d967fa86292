------------------------------- MODULE Angles -------------------------------
(***************************************************************************)
(* Rotation angles the specification can treat exactly.                    *)
(* An angle theta is the record [z, h, t] with z in Z[w], h a positive odd *)
(* integer, |z| = h and exp(i*theta/2) = z/h; t is a number of extra turns *)
(* (theta/2 = arg(z) + 2*pi*t), so theta = 2*arg(z) + 4*pi*t.              *)
(*   Cliff : multiples of pi/2 between -3*pi/2 and 2*pi                    *)
(*   Pyth  : generic angles from Pythagorean triples, of both signs        *)
(*   Big   : angles beyond one period (|theta| up to 8*pi)                 *)
(***************************************************************************)
EXTENDS Ring8

Ang(z, h, t) == [z |-> z, h |-> h, t |-> t]
AngNeg(a) == Ang(RConj(a.z), a.h, -a.t)
AngOm(j) == Ang(ROm(j), 1, 0)

Cliff == {AngOm(j) : j \in 0..7}
CliffNZ == Cliff \ {AngOm(0)}

P(a, b, c) == Ang(RGauss(a, b), c, 0)
Pyth == { P(4, 3, 5), P(3, 4, 5), P(4, -3, 5), P(3, -4, 5), P(-3, 4, 5), P(-4, -3, 5),
          P(12, 5, 13), P(5, -12, 13), P(-12, 5, 13), P(5, 12, 13),
          P(15, 8, 17), P(8, -15, 17), P(-8, -15, 17),
          P(24, 7, 25), P(20, -21, 29), P(40, 9, 41),
          Ang(RMul(ROm(1), RGauss(4, 3)), 5, 0),
          Ang(RMul(ROm(7), RGauss(12, -5)), 13, 0) }
Small == { P(99, 20, 101), P(99, -20, 101), P(9999, 200, 10001) }
Big == { Ang(RGauss(4, 3), 5, 1), Ang(RGauss(3, -4), 5, -1),
         Ang(ROm(3), 1, 1), Ang(ROm(6), 1, -2), Ang(RGauss(-5, 12), 13, 1) }

(* every angle is on the unit circle after division by h *)
AngleOK(a) == RMul(a.z, RConj(a.z)) = RInt(a.h * a.h)
ASSUME \A a \in Cliff \cup Pyth \cup Small \cup Big : AngleOK(a)
=============================================================================
