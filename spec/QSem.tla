-------------------------------- MODULE QSem --------------------------------
(***************************************************************************)
(* Exact semantics of n-qubit pure states, elementary operations on them,  *)
(* and the observables the library computes from them.                     *)
(* A state is [n, k, d, v]: amplitude number i (0-based) is                *)
(*     v[i+1] / (sqrt(2)^k * d)                                            *)
(* Qubit 0 is the most significant bit of i. States are not normalised:    *)
(* the initial vectors are integer vectors, and because every operation is *)
(* unitary the squared norm (kept as an integer by the caller) is constant.*)
(***************************************************************************)
EXTENDS Angles, FiniteSets, TLC

(* ---------------------------------------------------------------- states *)
St(n, k, d, v) == [n |-> n, k |-> k, d |-> d, v |-> v]
Bit(n, i, q) == (i \div 2^(n - 1 - q)) % 2          \* value of qubit q in index i

RECURSIVE NormK(_, _)
NormK(k, v) == IF k > 0 /\ \A i \in DOMAIN v : RDivSqrt2(v[i])
               THEN NormK(k - 1, TLCEval([i \in DOMAIN v |-> RBySqrt2(v[i])]))
               ELSE <<k, v>>
Primes == <<5, 13, 17, 29, 41, 101, 73, 137>>
RECURSIVE NormD(_, _, _)
NormD(j, d, v) ==
  IF j > Len(Primes) \/ d = 1 THEN <<d, v>>
  ELSE IF d % Primes[j] = 0 /\ \A i \in DOMAIN v : RDivInt(Primes[j], v[i])
       THEN NormD(j, d \div Primes[j], TLCEval([i \in DOMAIN v |-> RByInt(Primes[j], v[i])]))
       ELSE NormD(j + 1, d, v)
Normalise(st) == LET a == NormK(st.k, st.v)
                     b == NormD(1, st.d, a[2])
                 IN St(st.n, a[1], b[1], b[2])

(* two states are the same vector (denominators may differ) *)
RECURSIVE RTimesSqrt2Pow(_, _)
RTimesSqrt2Pow(m, x) == IF m = 0 THEN x
                        ELSE IF m >= 2 THEN RTimesSqrt2Pow(m - 2, RScale(2, x))
                        ELSE RTimesSqrt2(x)
SameState(a, b) == LET x == Normalise(a) y == Normalise(b)
                   IN x.n = y.n /\ x.k = y.k /\ x.d = y.d /\ x.v = y.v

(* -------------------------------------------- elementary operations *)
(* [c, t, m, k, d, z]: controls c (sequence), targets t (1 or 2 qubits), sparse matrix m   *)
(* over the targets (row -> sequence of <<column, entry>>), all divided by sqrt(2)^k * d;  *)
(* outside the control subspace the operation is the identity, or zero when z is TRUE.     *)
(* ty, a, q: the rotation it came from (type, angle, number of the parameter; q = 0: none) *)
El(ty, c, t, m, k, d, a, q) ==
  [ty |-> ty, c |-> c, t |-> t, m |-> m, k |-> k, d |-> d, a |-> a, q |-> q, z |-> FALSE]
A0 == AngOm(0)

SubSeqsBySqrt2(m) == [r \in DOMAIN m |-> [j \in DOMAIN m[r] |-> <<m[r][j][1], RBySqrt2(m[r][j][2])>>]]
RECURSIVE RowNorm(_, _)
RowNorm(k, m) == IF k > 0 /\ \A r \in DOMAIN m : \A j \in DOMAIN m[r] : RDivSqrt2(m[r][j][2])
                 THEN RowNorm(k - 1, TLCEval(SubSeqsBySqrt2(m)))
                 ELSE <<k, m>>

X2 == << <<<<2, R1>>>>, <<<<1, R1>>>> >>
Y2 == << <<<<2, RNeg(RI)>>>>, <<<<1, RI>>>> >>
Z2 == << <<<<1, R1>>>>, <<<<2, RNeg(R1)>>>> >>
H2 == << <<<<1, R1>>, <<2, R1>>>>, <<<<1, R1>>, <<2, RNeg(R1)>>>> >>
SW4 == << <<<<1, R1>>>>, <<<<3, R1>>>>, <<<<2, R1>>>>, <<<<4, R1>>>> >>

(* matrix of a rotation in terms of z = h*exp(i*theta/2) and y = its conjugate; with        *)
(* z := i*z, y := -i*y and two more powers of sqrt(2) it is the derivative d/dtheta.        *)
RotMat(ty, z, y) ==
  LET c == RAdd(z, y)                      \* 2h cos
      g == RSub(y, z)                      \* -2ih sin
      s == RNeg(RTimesI(RSub(z, y)))       \* 2h sin
  IN CASE ty = "rx" -> << <<<<1, c>>, <<2, g>>>>, <<<<1, g>>, <<2, c>>>> >>
       [] ty = "ry" -> << <<<<1, c>>, <<2, RNeg(s)>>>>, <<<<1, s>>, <<2, c>>>> >>
       [] ty = "rz" -> << <<<<1, y>>>>, <<<<2, z>>>> >>
       [] ty = "rxx" -> << <<<<1, c>>, <<4, g>>>>, <<<<2, c>>, <<3, g>>>>,
                           <<<<2, g>>, <<3, c>>>>, <<<<1, g>>, <<4, c>>>> >>
       [] ty = "ryy" -> << <<<<1, c>>, <<4, RNeg(g)>>>>, <<<<2, c>>, <<3, g>>>>,
                           <<<<2, g>>, <<3, c>>>>, <<<<1, RNeg(g)>>, <<4, c>>>> >>
       [] ty = "rzz" -> << <<<<1, y>>>>, <<<<2, z>>>>, <<<<3, z>>>>, <<<<4, y>>>> >>
RotK(ty) == IF ty \in {"rz", "rzz"} THEN 0 ELSE 2

Rot(ty, c, t, a, q) ==
  IF ty = "ph"            \* diag(1, exp(i*theta))
  THEN El(ty, c, t, << <<<<1, RInt(a.h * a.h)>>>>, <<<<2, RMul(a.z, a.z)>>>> >>, 0, a.h * a.h, a, q)
  ELSE LET rn == RowNorm(RotK(ty), RotMat(ty, a.z, RConj(a.z)))
       IN El(ty, c, t, rn[2], rn[1], a.h, a, q)
Fix(ty, c, t) ==
  CASE ty = "X" -> El(ty, c, t, X2, 0, 1, A0, 0)
    [] ty = "Y" -> El(ty, c, t, Y2, 0, 1, A0, 0)
    [] ty = "Z" -> El(ty, c, t, Z2, 0, 1, A0, 0)
    [] ty = "H" -> El(ty, c, t, H2, 1, 1, A0, 0)
    [] ty = "SW" -> El(ty, c, t, SW4, 0, 1, A0, 0)

(* the derivative of a rotation with respect to its angle: zero where the control is off *)
Deriv(e) ==
  IF e.ty = "ph"
  THEN [e EXCEPT !.m = << <<>>, <<<<2, RTimesI(RMul(e.a.z, e.a.z))>>>> >>,
                 !.k = 0, !.d = e.a.h * e.a.h, !.z = TRUE]
  ELSE LET rn == RowNorm(RotK(e.ty) + 2,
                         RotMat(e.ty, RTimesI(e.a.z), RNeg(RTimesI(RConj(e.a.z)))))
       IN [e EXCEPT !.m = rn[2], !.k = rn[1], !.d = e.a.h, !.z = TRUE]

(* conjugate transpose, computed on the matrix itself *)
RECURSIVE TransposeRow(_, _, _)
TransposeRow(m, c, r) ==       \* entries of column c, from row r on, as a row
  IF r > Len(m) THEN <<>>
  ELSE LET hit == {j \in DOMAIN m[r] : m[r][j][1] = c}
       IN (IF hit = {} THEN <<>> ELSE << <<r, RConj(m[r][CHOOSE j \in hit : TRUE][2])>> >>)
          \o TransposeRow(m, c, r + 1)
AdjEl(e) == [e EXCEPT !.m = [c \in DOMAIN e.m |-> TransposeRow(e.m, c, 1)], !.a = AngNeg(e.a)]
AdjSeq(es) == [i \in 1..Len(es) |-> AdjEl(es[Len(es) + 1 - i])]

Mul1(r, x) == IF r = R1 THEN x ELSE RMul(r, x)
Row(r, v, base, off) ==
  CASE Len(r) = 0 -> R0
    [] Len(r) = 1 -> Mul1(r[1][2], v[base + off[r[1][1]] + 1])
    [] Len(r) = 2 -> RAdd(Mul1(r[1][2], v[base + off[r[1][1]] + 1]),
                          Mul1(r[2][2], v[base + off[r[2][1]] + 1]))

ApplyEl(st, e) ==
  LET n == st.n
      v == st.v
      mk(q) == 2^(n - 1 - q)
      one == Len(e.t) = 1
      m1 == mk(e.t[1])
      m2 == IF one THEN 0 ELSE mk(e.t[2])
      off == IF one THEN <<0, m1>> ELSE <<0, m2, m1, m1 + m2>>
      cm == [j \in DOMAIN e.c |-> mk(e.c[j])]
      on(i) == \A j \in DOMAIN cm : (i \div cm[j]) % 2 = 1
      keep(x) == IF e.z THEN R0
                 ELSE RTimesSqrt2Pow(e.k, IF e.d = 1 THEN x ELSE RScale(e.d, x))
      at(i) == IF on(i)
               THEN LET b1 == (i \div m1) % 2
                        b2 == IF one THEN 0 ELSE (i \div m2) % 2
                        loc == IF one THEN b1 + 1 ELSE 2 * b1 + b2 + 1
                    IN Row(e.m[loc], v, i - b1 * m1 - b2 * m2, off)
               ELSE keep(v[i + 1])
      w == TLCEval([j \in 1..2^n |-> at(j - 1)])
      a == NormK(st.k + e.k, w)
  IN St(n, a[1], st.d * e.d, a[2])

RECURSIVE RunFrom(_, _, _)
RunFrom(st, es, j) == IF j > Len(es) THEN st ELSE RunFrom(TLCEval(ApplyEl(st, es[j])), es, j + 1)
Run(st, es) == TLCEval(Normalise(RunFrom(st, es, 1)))

(* ------------------------------------------------------- observables *)
RECURSIVE SumTo(_, _)
SumTo(f, m) == IF m = 0 THEN R0 ELSE RAdd(f[m], SumTo(f, m - 1))
(* <a|b>, the numerator over sqrt(2)^(a.k+b.k) * a.d * b.d *)
Inner(a, b) == SumTo(TLCEval([i \in DOMAIN a.v |-> RMul(RConj(a.v[i]), b.v[i])]), Len(a.v))
Frac(x, k, d) == [x |-> x, k |-> k, d |-> d]
InnerF(a, b) == Frac(Inner(a, b), a.k + b.k, a.d * b.d)
RECURSIVE Sq(_, _)
Sq(v, m) == IF m = 0 THEN 0 ELSE RMul(v[m], RConj(v[m]))[1] + Sq(v, m - 1)
Norm2(v) == Sq(v, Len(v))                  \* squared norm of an integer vector

(* a Pauli string is a sequence of <<qubit, "X"|"Y"|"Z">>; an observable is a sequence of   *)
(* <<integer coefficient, Pauli string>>                                                    *)
PauliEls(ps) == [j \in DOMAIN ps |-> Fix(ps[j][2], <<>>, <<ps[j][1]>>)]
RECURSIVE ObsApply(_, _, _)
ObsApply(obs, st, j) ==      \* sum over terms j.. of coefficient * string applied to st
  LET s == RunFrom(st, PauliEls(obs[j][2]), 1)
      w == [i \in DOMAIN s.v |-> RScale(obs[j][1], s.v[i])]
  IN IF j = Len(obs) THEN St(st.n, st.k, st.d, TLCEval(w))
     ELSE LET r == ObsApply(obs, st, j + 1)
          IN St(st.n, st.k, st.d, TLCEval([i \in DOMAIN w |-> RAdd(w[i], r.v[i])]))
Expect(st, obs) == LET m == ObsApply(obs, st, 1)
                   IN Frac(Inner(st, m), 2 * st.k, st.d * st.d)

(* entry (i,j) (0-based) of |st><st|, over 2^k * d^2 *)
Dens(st, i, j) == RMul(st.v[i + 1], RConj(st.v[j + 1]))
=============================================================================
