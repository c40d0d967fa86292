------------------------------ MODULE GateTable ------------------------------
(***************************************************************************)
(* The denotation of every request for an operation: kind x register size  *)
(* x ordered tuple of wires x parameters, as the full table of columns     *)
(* (the image of every basis state). Sim = FALSE enumerates all requests   *)
(* of the given sizes (split in Parts parts); the parameters then follow   *)
(* the patterns Pats. Sim = TRUE draws requests at random.                 *)
(***************************************************************************)
EXTENDS Functional, Json, CSV
CONSTANTS Full, Kinds,    \* instruction kinds (Gates) and function kinds (Functional) in use
          Sizes, Pats, Parts, Part, CheckN, OutFile

VARIABLES phase, n, op, ins, cols      \* ins: the input vectors, cols: their images
vars == <<phase, n, op, ins, cols>>

(* three generic angles per request, the other parameters odd and even multiples of pi/2 *)
Gen == << P(4, 3, 5), P(5, -12, 13), P(-12, 5, 13), P(3, -4, 5), P(8, -15, 17), P(-4, -3, 5), P(12, 5, 13),
          P(-8, -15, 17), P(15, 8, 17), P(20, -21, 29), Ang(RMul(ROm(1), RGauss(4, 3)), 5, 0),
          Ang(RGauss(4, 3), 5, 1), Ang(RGauss(3, -4), 5, -1), P(-3, 4, 5), Ang(RGauss(-5, 12), 13, 1),
          AngOm(0), AngOm(1), AngOm(2), AngOm(3), AngOm(4), AngOm(5), AngOm(6), AngOm(7), Ang(ROm(3), 1, 1),
          Ang(ROm(6), 1, -2), AngOm(0) >>
NGen == 15
RECURSIVE Hash(_, _)
Hash(w, j) == IF j > Len(w) THEN 0 ELSE (2 * j + 1) * w[j] + Hash(w, j + 1)
Slots(m, a) == {((a * 5 + i * ((m \div 3) + 1)) % m) + 1 : i \in 0..2}
PatParams(m, a, h) ==
  IF m = 0 THEN <<>>
  ELSE IF m <= 3 THEN [j \in 1..m |-> Gen[((a * 7 + 3 * h + 11 * j) % Len(Gen)) + 1]]
  ELSE LET S == Slots(m, a + h)
       IN [j \in 1..m |-> IF j \in S THEN Gen[((a * 7 + h + 4 * j) % NGen) + 1]
                          ELSE AngOm((3 * j + a + h + (j \div 3)) % 8)]

IsF(g) == g \in FKinds
Nm(o) == IF IsF(o.g) THEN FDen(o, n) ELSE Den(o)
NumP(g, w, r) == IF IsF(g) THEN FParams(g, n) ELSE NumParams(g, Len(w), r)
Wires(g, m) == IF IsF(g) THEN (IF m >= FMin(g) THEN {[j \in 1..m |-> j - 1]} ELSE {})
               ELSE UNION {PickWires(g, m, k) : k \in Pick(Arity(g, m))}
Reps(g) == IF IsF(g) THEN FDirs(g) ELSE IF g = "BEL" THEN 1..2 ELSE {1}
PickP(m, a, h) == IF Sim /\ m <= 3 THEN PickParams(m, 100) ELSE {PatParams(m, a, h)}

(* inputs: every basis state, or, on registers of more than Full qubits, two dense vectors and a basis state *)
RECURSIVE Dense(_, _, _)
Dense(m, x, j) == IF j > 2^m THEN <<>>
                  ELSE <<RGauss(((x + j * j) % 5) - 2, ((x * j + j) % 3) - 1)>> \o Dense(m, (x * 29 + 7) % 1009, j + 1)
Ins(m, x) == IF m <= Full THEN [j \in 1..2^m |-> Basis(m, j - 1)]
             ELSE << Dense(m, x % 1009, 1), Dense(m, (x + 411) % 1009, 1), Basis(m, x % 2^m) >>
Cols(o, iv) == [j \in DOMAIN iv |-> LET s == Run(St(n, 0, 1, iv[j]), Nm(o)) IN [k |-> s.k, d |-> s.d, v |-> s.v]]
ColsOf(es) == [j \in DOMAIN ins |-> Run(St(n, 0, 1, ins[j]), es)]

Init == phase = "new" /\ n = 0 /\ op = <<>> /\ ins = <<>> /\ cols = <<>>
Size == /\ phase = "new" /\ phase' = "size"
        /\ n' \in Pick(Sizes) /\ UNCHANGED <<op, ins, cols>>
Request ==
  /\ phase = "size" /\ phase' = "req"
  /\ \E g \in Pick({k \in Kinds : Wires(k, n) # {}}) : \E w \in Wires(g, n) : \E r \in Pick(Reps(g)) :
     \E a \in Pick(Pats) : 
       LET h == Hash(w, 1) + r
       IN /\ (Sim \/ (h + a + Len(w)) % Parts = Part)
          /\ \E p \in PickP(NumP(g, w, r), IF Sim THEN RandomElement(1..1000) ELSE a, h) :
               /\ op' = OpR(g, w, p, r)
               /\ ins' = TLCEval(Ins(n, IF Sim THEN RandomElement(1..1000) ELSE 37 * h + a))
  /\ UNCHANGED <<n, cols>>
Answer ==
  /\ phase = "req" /\ phase' = "done"
  /\ cols' = TLCEval(Cols(op, ins))
  /\ OutFile # "" =>
       CSVWrite("%1$s", <<ToJson([n |-> n, op |-> op, ins |-> IF n <= Full THEN <<>> ELSE ins, cols |-> cols',
                 fun |-> IsF(op.g), tn |-> IF IsF(op.g) THEN FALSE ELSE SupportsTN(op, n),
                 has |-> IF IsF(op.g) THEN FALSE ELSE HasDagger(op),
                 dag |-> IF IsF(op.g) \/ ~HasDagger(op) THEN op ELSE DagOp(op)])>>, OutFile)
  /\ UNCHANGED <<n, op, ins>>
Next == Size \/ Request \/ Answer
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Small2 == phase = "done" /\ n <= CheckN /\ n <= Full
(* every operation is unitary: its columns are orthonormal *)
Unitary == Small2 =>
  \A i, j \in DOMAIN cols : i <= j =>
     LET f == InnerF(cols[i], cols[j])
     IN f.x = IF i = j THEN RTimesSqrt2Pow(f.k, RInt(f.d)) ELSE R0
(* the declared inverse is the conjugate transpose *)
DagIsAdjoint == (Small2 /\ ~IsF(op.g)) =>
  (HasDagger(op) =>
     LET x == ColsOf(Den(DagOp(op))) y == ColsOf(AdjSeq(Den(op)))
     IN \A j \in DOMAIN x : SameState(x[j], y[j]))
(* running the inverse after the operation is the identity *)
DagUndoes == (Small2 /\ ~IsF(op.g)) =>
  (HasDagger(op) =>
     \A j \in DOMAIN cols : SameState(Run(St(n, cols[j].k, cols[j].d, cols[j].v), Den(DagOp(op))),
                                      St(n, 0, 1, ins[j])))
(* qubits that are neither controls nor targets are untouched *)
Local == (Small2 /\ ~IsF(op.g)) =>
  \A q \in (0..(n - 1)) \ {op.w[j] : j \in DOMAIN op.w} :
     \A j \in DOMAIN cols : \A i \in DOMAIN cols[j].v :
        Bit(n, i - 1, q) # Bit(n, j - 1, q) => cols[j].v[i] = R0
=============================================================================
