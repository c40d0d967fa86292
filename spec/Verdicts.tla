------------------------------- MODULE Verdicts -------------------------------
(***************************************************************************)
(* Which requests are well formed: requests for operations [g, w, np, r]   *)
(* and requests for values [f, s, m, l, x] where s and m are the shapes of *)
(* the arrays handed over, l a list of qubits and x a further choice.      *)
(***************************************************************************)
EXTENDS Picks

Range(w) == {w[j] : j \in DOMAIN w}
Distinct(w) == \A i, j \in DOMAIN w : i # j => w[i] # w[j]
GoodWires(g, w, m) == /\ Len(w) \in Arity(g, m)
                      /\ Range(w) \subseteq 0..(m - 1)
                      /\ Distinct(w)
WF(q, m) == /\ GoodWires(q.g, q.w, m)
            /\ q.r >= 1
            /\ q.np = NumParams(q.g, Len(q.w), q.r)
Verdict(q, m) ==
  LET o == Op(q.g, q.w, <<>>)
      ok == WF(q, m)
  IN [u |-> ok, tn |-> ok /\ SupportsTN(o, m), dag |-> ok /\ HasDagger(o)]


SqD(d) == <<d, d>>
RECURSIVE Prod(_, _)
Prod(s, j) == IF j > Len(s) THEN 1 ELSE s[j] * Prod(s, j + 1)
Squeeze(s) == SelectSeq(s, LAMBDA d : d # 1)
IsSquare(s) == Len(s) = 2 /\ s[1] = s[2]
InReg(l, m) == Range(l) \subseteq 0..(m - 1)
Twos(k) == [j \in 1..k |-> 2]

VectorFns == {"StateVec2MPS", "MatrixProductState"}
MatrixFns == {"Rho2MPS", "MatrixProductDensityOperator"}
TraceFns  == {"partial_trace", "partial_trace_old"}
(* x: 1 means trace one (matrices) resp. tensor-network path resp. batched *)
ShapeOK(q, m) ==
  LET D == 2^m
  IN CASE q.f \in VectorFns -> q.s = <<1, D>>
       [] q.f \in MatrixFns -> q.s = SqD(D)
       [] q.f \in TraceFns -> q.s = SqD(D) /\ InReg(q.l, m) /\ Distinct(q.l) /\ q.x = 1
       [] q.f = "ptrace" -> (\A j \in DOMAIN q.l : q.l[j] >= 0) /\ q.s = SqD(2^(q.l[1] + q.l[2]))
       [] q.f = "expval" -> IsSquare(q.m) /\ (\/ (Len(q.s) = 2 /\ q.s[1] = q.m[1])
                                             \/ Prod(q.s, 1) = q.m[1])
       [] q.f = "expval_rho" -> IsSquare(q.m) /\ q.s = q.m /\ q.x = 1
       [] q.f = "measure" -> Squeeze(q.s) = <<D>> /\ InReg(q.l, m)
       [] q.f = "measure_rho" -> Squeeze(q.s) = SqD(D) /\ InReg(q.l, m) /\ q.x = 1
       [] q.f = "cir_expectation" -> q.s = <<1, D>> /\ q.m = SqD(D)
       [] q.f = "TN_evolution" -> q.s = <<m>>               \* the length of the list
       [] q.f = "TN_contract_evolution" -> q.s = Twos(m)
       [] q.f = "TN_contract_batch" -> Len(q.s) = m + 1 /\ q.s = <<q.s[1]>> \o Twos(m)
       [] q.f = "MPS_inner_product" -> q.s = q.m            \* lengths of the two lists
       [] q.f = "MPS_expec" -> InReg(q.l, m) /\ q.x = Len(q.l)
       [] q.f = "dag" -> Len(q.s) = 2
AllFns == VectorFns \cup MatrixFns \cup TraceFns \cup {"ptrace", "expval", "expval_rho", "measure", "measure_rho", "cir_expectation",
            "TN_evolution", "TN_contract_evolution", "TN_contract_batch", "MPS_inner_product", "MPS_expec", "dag"}

(* ---------------------------------------------------------------- requests tried *)
Dims(m) == {1, 2^(m - 1), 2^m, 2^m + 1, 2^(m + 1), 4^m}
SeqsOf(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Lists(m, k) == SeqsOf((-2)..(m + 1), 0, k)
Asked(f, s, mm, l, x) == [f |-> f, s |-> s, m |-> mm, l |-> l, x |-> x]
Cut(S) == {s \in S : Prod(s, 1) <= 1024}
Asks(f, m) ==
  LET D == 2^m IN
  CASE f \in VectorFns \cup MatrixFns \cup {"dag"} -> {Asked(f, s, <<>>, <<>>, 0) : s \in Cut(SeqsOf(Dims(m), 1, 3))}
    [] f \in TraceFns -> {Asked(f, s, <<>>, <<m - 1>>, 1) : s \in Cut(SeqsOf(Dims(m), 2, 2))}
                          \cup {Asked(f, SqD(D), <<>>, l, x) : l \in Lists(m, 2), x \in {0, 1}}
    [] f = "ptrace" -> {Asked(f, s, <<>>, <<a, b>>, 0) : s \in Cut(SeqsOf(Dims(m), 1, 2)), a \in (-1)..(m + 1), b \in (-1)..(m + 1)}
    [] f = "expval" -> {Asked(f, s, mm, <<>>, 0) : s \in Cut(SeqsOf(Dims(m), 1, 2)), mm \in Cut(SeqsOf(Dims(m), 1, 2))}
    [] f = "expval_rho" -> {Asked(f, s, mm, <<>>, x) : s \in Cut(SeqsOf(Dims(m), 2, 2)), mm \in Cut(SeqsOf(Dims(m), 1, 2)), x \in {0, 1}}
    [] f = "measure" -> {Asked(f, s, <<>>, l, 0) : s \in {t \in Cut(SeqsOf(Dims(m), 1, 2)) : Len(Squeeze(t)) <= 1}, l \in Lists(m, 1)}
                        \cup {Asked(f, <<D>>, <<>>, l, 0) : l \in Lists(m, 2)}
    [] f = "measure_rho" -> {Asked(f, s, <<>>, <<0>>, 1) : s \in {t \in Cut(SeqsOf(Dims(m), 2, 2)) : Len(Squeeze(t)) = 2}}
                            \cup {Asked(f, SqD(D), <<>>, l, x) : l \in Lists(m, 2), x \in {0, 1}}
    [] f = "cir_expectation" -> {Asked(f, s, mm, <<>>, x) : s \in Cut(SeqsOf(Dims(m), 1, 2)),
                                   mm \in {<<D>>, SqD(D), <<D, 1>>, <<1, D>>, <<D, 2 * D>>, <<2 * D, D>>, SqD(2 * D), <<1, 1>>}, x \in {0, 1}}
    [] f = "TN_evolution" -> {Asked(f, <<k>>, <<>>, <<>>, 0) : k \in 0..(m + 2)}
    [] f \in {"TN_contract_evolution", "TN_contract_batch"} -> {Asked(f, s, <<>>, <<>>, 0) : s \in SeqsOf({1, 2, 3}, 0, IF m < 3 THEN m + 2 ELSE m + 1)}
    [] f = "MPS_inner_product" -> {Asked(f, <<a>>, <<b>>, <<>>, 0) : a \in 1..(m + 1), b \in 1..(m + 1)}
    [] f = "MPS_expec" -> {Asked(f, <<>>, <<>>, l, x) : l \in {t \in Lists(m, 2) : t # <<>>}, x \in 0..3}
=============================================================================
