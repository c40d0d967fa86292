-------------------------------- MODULE Picks --------------------------------
(***************************************************************************)
(* Nondeterminism, written once for both uses of the specification: with   *)
(* Sim = FALSE every Pick is the whole set (exhaustive model checking),    *)
(* with Sim = TRUE it is one pseudo-random element (simulation, one        *)
(* successor per step, reproducible from TLC's -seed).                     *)
(* All operators take an argument so that TLC does not cache a random      *)
(* choice as a constant.                                                   *)
(***************************************************************************)
EXTENDS Gates
CONSTANTS Sim,      \* BOOLEAN
          GenPct    \* percentage of generic (Pythagorean) angles in layers

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

(* sequences of k distinct elements of avail *)
RECURSIVE PickSeq(_, _)
PickSeq(avail, k) ==
  IF k = 0 THEN {<<>>}
  ELSE UNION { {<<x>> \o s : s \in PickSeq(avail \ {x}, k - 1)} : x \in Pick(avail) }

(* a generic angle with probability pct percent, otherwise a multiple of pi/2 *)
PickAng(pct) ==
  UNION { Pick(CASE r > pct -> Cliff
                 [] r <= pct /\ r % 10 = 0 -> Big
                 [] OTHER -> Pyth) : r \in Pick(1..100) }
RECURSIVE PickParams(_, _)
PickParams(m, pct) ==
  IF m = 0 THEN {<<>>}
  ELSE UNION { {<<a>> \o s : s \in PickParams(m - 1, pct)} : a \in PickAng(pct) }
Free == {AngOm(0), AngOm(2), AngOm(4), AngOm(6)}
RECURSIVE PickFree(_)
PickFree(m) ==
  IF m = 0 THEN {<<>>}
  ELSE UNION { {<<a>> \o s : s \in PickFree(m - 1)} : a \in Pick(Free) }

(* numbers of wires a kind can act on, in a circuit of n qubits *)
Arity(g, n) ==
  CASE g \in Fixed1 \cup Param1 \cup {"u3"} -> {1}
    [] g \in Fixed2 \cup Param2 \cup {"cu3"} -> {2} \cap (1..n)
    [] g = "toffoli" -> {3} \cap (1..n)
    [] g = "mcc" -> 2..n
    [] g \in Layers3 \cup Layers2 \cup {"HL"} -> 1..n
    [] g \in Rings \cup {"BEL"} -> 2..n

(* wires: rings and entangling layers prefer the whole register in order *)
PickWires(g, n, k) ==
  IF g \in Rings \cup {"BEL"} /\ Sim
  THEN UNION { IF r <= 5 THEN {[j \in 1..n |-> j - 1]} ELSE PickSeq(0..(n - 1), k) : r \in Pick(1..10) }
  ELSE PickSeq(0..(n - 1), k)

PickOp(g, n) ==
  UNION { UNION { UNION {
     { OpR(g, w, p, r) :
         p \in PickParams(NumParams(g, Len(w), r), IF g \in GateKinds THEN 60 ELSE GenPct) }
     : r \in (IF g = "BEL" THEN Pick(1..2) ELSE {1}) }
     : w \in PickWires(g, n, k) }
     : k \in Pick(Arity(g, n)) }

(* initial integer vectors *)
GaussQ == { <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<2, -1>>, <<0, 0>>, <<1, -1>> }
RandVec(n, S) == TLCEval([j \in 1..2^n |-> LET g == RandomElement(S) IN RGauss(g[1], g[2])])
Basis(n, j) == [i \in 1..2^n |-> IF i = j + 1 THEN R1 ELSE R0]
QubitVecs == { <<R1, R0>>, <<R0, R1>>, <<R1, R1>>, <<R1, RNeg(R1)>>, <<R1, RI>>, <<RI, R1>>,
               <<RInt(2), R1>>, <<R1, RGauss(1, 1)>>, <<RGauss(0, -1), RInt(2)>> }
Kron(a, b) == [i \in 1..(Len(a) * Len(b)) |->
                 RMul(a[((i - 1) \div Len(b)) + 1], b[((i - 1) % Len(b)) + 1])]
RECURSIVE ProdVec(_)
ProdVec(n) == IF n = 0 THEN {<<R1>>}
              ELSE UNION { {TLCEval(Kron(q, r)) : r \in ProdVec(n - 1)} : q \in Pick(QubitVecs) }
NonZero(v) == \E j \in DOMAIN v : v[j] # R0
PickVec(cls, n) ==
  CASE cls = "zero" -> {Basis(n, 0)}
    [] cls = "basis" -> {Basis(n, j) : j \in Pick(0..(2^n - 1))}
    [] cls = "product" -> ProdVec(n)
    [] cls = "dense" -> {v \in {RandVec(n, GaussQ)} : NonZero(v)}
    [] cls = "real" -> {v \in {RandVec(n, {<<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 0>>})} : NonZero(v)}
    [] cls = "sparse" -> {[i \in 1..2^n |-> IF i = j[1] THEN RGauss(1, 1) ELSE IF i = j[2] THEN RGauss(0, -1) ELSE R0]
                           : j \in PickSeq(1..2^n, 2)}
    [] cls = "sparse2" -> UNION { {[i \in 1..2^n |-> IF i = j[1] THEN x ELSE IF i = j[2] THEN y ELSE R0]
                           : x \in Pick({R1, RI}), y \in Pick({R1, RNeg(R1), RGauss(0, -1)})} : j \in PickSeq(1..2^n, 2)}
    [] cls = "schmidt" -> {[i \in 1..2^n |-> IF i = j[1] THEN RInt(s) ELSE IF i = j[2] THEN R1 ELSE R0]
                            : j \in PickSeq(1..2^n, 2), s \in Pick({100, 512, 4096, 16384})}
PickSparse(n) == IF n = 1 THEN "dense" ELSE "sparse"

(* sizes, in bits: squared norm * 2^k * d^2 bounds every integer the semantics computes *)
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2((x + 1) \div 2)
Bits(n2, st) == Log2(n2) + st.k + 2 * Log2(st.d)
RECURSIVE CostFrom(_, _)
CostFrom(es, j) == IF j > Len(es) THEN 0 ELSE es[j].k + 2 * Log2(es[j].d) + CostFrom(es, j + 1)
Cost(op) == CostFrom(Den(op), 1)

(* observables *)
PickPauli(w) == { <<w, x>> : x \in Pick({"X", "Y", "Z"}) }
RECURSIVE PaulisOn(_, _)
PaulisOn(ws, j) == IF j > Len(ws) THEN {<<>>}
                   ELSE UNION { {<<x>> \o s : s \in PaulisOn(ws, j + 1)} : x \in PickPauli(ws[j]) }
PickString(n) == UNION { UNION { PaulisOn(ws, 1) : ws \in PickSeq(0..(n - 1), k) }
                         : k \in Pick(0..n) }
RECURSIVE PickObs(_, _)
PickObs(n, terms) ==
  IF terms = 0 THEN {<<>>}
  ELSE UNION { UNION { { << <<c, s>> >> \o o : o \in PickObs(n, terms - 1) } : s \in PickString(n) }
               : c \in Pick({-2, -1, 1, 2}) }
=============================================================================
