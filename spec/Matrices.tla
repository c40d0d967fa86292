------------------------------- MODULE Matrices -------------------------------
(***************************************************************************)
(* The matrix predicates and products as requests with exact answers.      *)
(* A matrix is [r, c, k, d, m]: r x c entries m[i][j] / (sqrt(2)^k * d).   *)
(***************************************************************************)
EXTENDS Picks, Json, CSV
CONSTANTS Ops, Sizes, OutFile
VARIABLES phase, req, ans
vars == <<phase, req, ans>>

Mat(r, c, k, d, m) == [r |-> r, c |-> c, k |-> k, d |-> d, m |-> m]
Small8 == { R0, R1, RNeg(R1), RI, RGauss(1, 1), RGauss(2, -1), RInt(3), RGauss(0, -2), <<0, 1, 0, 0>>, <<0, 0, 0, -1>> }
RandM(r, c) == Mat(r, c, 0, 1, TLCEval([i \in 1..r |-> [j \in 1..c |-> RandomElement(Small8)]]))
(* a random unitary: the columns of a random program *)
RECURSIVE Prog(_, _)
Prog(n, l) == IF l = 0 THEN {<<>>}
              ELSE UNION { UNION { {<<o>> \o s : s \in Prog(n, l - 1)} : o \in PickOp(g, n) }
                           : g \in Pick({x \in {"H", "X", "Y", "Z", "rx", "ry", "rz", "u1", "cnot", "cz", "SWAP", "u3"} : Arity(x, n) # {}}) }
UnitaryOf(n, prog) ==
  LET c == [j \in 1..2^n |-> Run(St(n, 0, 1, Basis(n, j - 1)), CircEls(prog))]
      K == LET RECURSIVE mk(_) mk(j) == IF j = 0 THEN 0 ELSE LET x == mk(j - 1) IN IF c[j].k > x THEN c[j].k ELSE x IN mk(2^n)
      D == LET RECURSIVE md(_) md(j) == IF j = 0 THEN 1 ELSE LET x == md(j - 1) IN IF x % c[j].d = 0 THEN x
                                                  ELSE IF c[j].d % x = 0 THEN c[j].d ELSE x * c[j].d IN md(2^n)
  IN Mat(2^n, 2^n, K, D, TLCEval([i \in 1..2^n |-> [j \in 1..2^n |->
            RTimesSqrt2Pow(K - c[j].k, RScale(D \div c[j].d, c[j].v[i]))]]))
HermOf(a) == Mat(a.r, a.r, a.k, a.d, TLCEval([i \in 1..a.r |-> [j \in 1..a.r |-> RAdd(a.m[i][j], RConj(a.m[j][i]))]]))
(* change one entry *)
Ch(x, how) == CASE how = "neg" -> RNeg(x) [] how = "i" -> RTimesI(x) [] how = "one" -> RAdd(x, R1)
                [] how = "conj" -> RConj(x) [] how = "zero" -> R0
Perturb(a, i, j, how) == [a EXCEPT !.m[i][j] = Ch(a.m[i][j], how)]
(* a small change: scale everything by 512, then add 1 *)
Nudge(a, i, j) == Mat(a.r, a.c, a.k, a.d * 512, TLCEval([x \in 1..a.r |-> [y \in 1..a.c |->
                     IF x = i /\ y = j THEN RAdd(RScale(512, a.m[x][y]), RTimesSqrt2Pow(a.k, RInt(a.d))) ELSE RScale(512, a.m[x][y])]]))
Swap2(a, i, j) == [a EXCEPT !.m = [x \in 1..a.r |-> IF x = i THEN a.m[j] ELSE a.m[x]]]   \* row i repeats row j

(* exact answers *)
RECURSIVE DotTo(_, _, _)
DotTo(x, y, j) == IF j = 0 THEN R0 ELSE RAdd(RMul(x[j], RConj(y[j])), DotTo(x, y, j - 1))
IsU(a) == \A i, j \in 1..a.r : DotTo(a.m[i], a.m[j], a.c) = IF i = j THEN RTimesSqrt2Pow(2 * a.k, RInt(a.d * a.d)) ELSE R0
IsH(a) == \A i, j \in 1..a.r : a.m[i][j] = RConj(a.m[j][i])
IsN(x, k, d) == DotTo(x, x, Len(x)) = RTimesSqrt2Pow(2 * k, RInt(d * d))
Kron2(a, b) == Mat(a.r * b.r, a.c * b.c, a.k + b.k, a.d * b.d,
                   TLCEval([i \in 1..(a.r * b.r) |-> [j \in 1..(a.c * b.c) |->
                     RMul(a.m[((i - 1) \div b.r) + 1][((j - 1) \div b.c) + 1], b.m[((i - 1) % b.r) + 1][((j - 1) % b.c) + 1])]]))
RECURSIVE KronAll(_, _)
KronAll(s, j) == IF j = 1 THEN s[1] ELSE Kron2(KronAll(s, j - 1), s[j])
Dag(a) == Mat(a.c, a.r, a.k, a.d, [i \in 1..a.c |-> [j \in 1..a.r |-> RConj(a.m[j][i])]])

Init == phase = "new" /\ req = <<>> /\ ans = <<>>
Q(o, ms, how, at) == [o |-> o, ms |-> ms, how |-> how, at |-> at]
Hows == {"none", "neg", "i", "one", "conj", "zero", "nudge", "row"}
Change(a, how, i, j) == CASE how = "none" -> a [] how = "nudge" -> Nudge(a, i, j)
                          [] how = "row" -> Swap2(a, i, IF i = j THEN (i % a.r) + 1 ELSE j) [] OTHER -> Perturb(a, i, j, how)
UnitReq == \E n \in Pick(Sizes) : \E l \in Pick(0..4) : \E pr \in Prog(n, l) : \E how \in Pick(Hows) :
             \E x \in Pick(1..2^n) : \E y \in Pick(1..2^n) :
             LET u == UnitaryOf(n, pr)
                 h == IF how = "nudge" /\ u.k + 2 * Log2(u.d) > 11 THEN "neg" ELSE how
             IN /\ u.d <= 4000 /\ u.k <= 16
                /\ req' = Q("unitary", <<Change(u, h, x, y)>>, h, <<x, y>>)
HermReq == \E r \in Pick(1..6) : \E how \in Pick(Hows) : \E x \in Pick(1..r) : \E y \in Pick(1..r) :
             req' = Q("hermitian", <<Change(HermOf(RandM(r, r)), how, x, y)>>, how, <<x, y>>)
(* unit vectors: products of Pythagorean pairs, padded, one entry changed *)
Pairs2 == { <<RInt(3), RInt(4), 5>>, <<RInt(-5), RGauss(0, 12), 13>>, <<RInt(1), R0, 1>>, <<RInt(8), RInt(-15), 17>>, <<R0, RI, 1>> }
RECURSIVE UnitVec(_)
UnitVec(m) == IF m = 0 THEN {<<<<R1>>, 1>>}
              ELSE UNION { { << TLCEval([i \in 1..(2 * Len(z[1])) |-> RMul(z[1][((i - 1) \div 2) + 1], q[((i - 1) % 2) + 1])]), z[2] * q[3] >>
                             : z \in UnitVec(m - 1) } : q \in Pick(Pairs2) }
NormReq == \E m \in Pick(0..3) : \E z \in UnitVec(m) : \E pad \in Pick(0..2) : \E how \in Pick(Hows \ {"row"}) :
             LET L == Len(z[1]) + pad
                 a == Mat(1, L, 0, z[2], <<[j \in 1..L |-> IF j <= Len(z[1]) THEN z[1][j] ELSE R0]>>)
             IN \E y \in Pick(1..L) : req' = Q("normal", <<Change(a, IF z[2] > 40 /\ how = "nudge" THEN "one" ELSE how, 1, y)>>, how, <<1, y>>)
KronReq == \E m \in Pick(1..4) : \E sq \in Pick({TRUE, FALSE}) :
             req' = Q("kron", [j \in 1..m |-> IF sq THEN RandM(2, 2) ELSE RandM(RandomElement(1..3), RandomElement(1..3))], "", <<>>)
DagReq == \E r \in Pick(1..5) : \E c \in Pick(1..5) : req' = Q("dag", <<RandM(r, c)>>, "", <<>>)
ShapeReq == \E r \in Pick(1..4) : \E c \in Pick({x \in 1..5 : x # r}) : req' = Q("nonsquare", <<RandM(r, c)>>, "", <<>>)
Request == /\ phase = "new" /\ phase' = "req" /\ UNCHANGED ans
           /\ \E o \in Pick(Ops) : CASE o = "unitary" -> UnitReq [] o = "hermitian" -> HermReq [] o = "normal" -> NormReq
                                     [] o = "kron" -> KronReq [] o = "dag" -> DagReq [] o = "nonsquare" -> ShapeReq
Answer == /\ phase = "req" /\ phase' = "done" /\ UNCHANGED req
          /\ LET a == req.ms[1] IN
             ans' = CASE req.o = "unitary" -> [yes |-> IsU(a), m |-> <<>>]
                      [] req.o = "hermitian" -> [yes |-> IsH(a), m |-> <<>>]
                      [] req.o = "normal" -> [yes |-> IsN(a.m[1], a.k, a.d), m |-> <<>>]
                      [] req.o = "kron" -> [yes |-> TRUE, m |-> <<KronAll(req.ms, Len(req.ms))>>]
                      [] req.o = "dag" -> [yes |-> TRUE, m |-> <<Dag(a)>>]
                      [] req.o = "nonsquare" -> [yes |-> FALSE, m |-> <<>>]
          /\ OutFile # "" => CSVWrite("%1$s", <<ToJson([req |-> req, ans |-> ans'])>>, OutFile)
Next == Request \/ Answer
Spec == Init /\ [][Next]_vars

Done(o) == phase = "done" /\ req.o = o
(* an untouched unitary, Hermitian matrix or unit vector has the property *)
Positive == (phase = "done" /\ req.o \in {"unitary", "hermitian", "normal"} /\ req.how = "none") => ans.yes
(* rows orthonormal iff columns orthonormal, for square matrices *)
RowsColumns == Done("unitary") => (ans.yes = IsU(Dag(req.ms[1])))
DagTwice == Done("dag") => Dag(ans.m[1]) = req.ms[1]
=============================================================================
