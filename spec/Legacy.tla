-------------------------------- MODULE Legacy --------------------------------
(***************************************************************************)
(* The older circuit class: gates are requested one after the other, a     *)
(* request naming an unusable qubit is rejected and must leave no trace.   *)
(* psi: exact images of the initial states; rho of the measurement is the  *)
(* ensemble of these states.                                               *)
(***************************************************************************)
EXTENDS Picks, Json, CSV
CONSTANTS Kinds, Sizes, Lengths, Batch, Inits, BadW, MaxBits, OutFile
VARIABLES phase, n, init, prog, psi, todo, hist
vars == <<phase, n, init, prog, psi, todo, hist>>

LKinds == {"H", "X", "Y", "Z", "rx", "ry", "rz", "cnot", "cz", "rxx", "ryy", "rzz", "mcc"}
LLabel(g) == CASE g = "mcc" -> "multi_control_cnot" [] OTHER -> g

RECURSIVE RunOps(_, _, _, _)
RunOps(st, m, ops, j) ==
  IF j > Len(ops) THEN [ok |-> Bits(m, st) <= MaxBits, st |-> st]
  ELSE IF Bits(m, st) + Cost(ops[j]) > 56 THEN [ok |-> FALSE, st |-> st]
  ELSE RunOps(Run(st, Den(ops[j])), m, ops, j + 1)
RunAll(sts, ops) == TLCEval([b \in DOMAIN sts |-> RunOps(sts[b], Norm2(init[b]), ops, 1)])
AllOK(rs) == \A b \in DOMAIN rs : rs[b].ok
States(rs) == [b \in DOMAIN rs |-> rs[b].st]
Shot(sts) == [b \in DOMAIN sts |-> [k |-> sts[b].k, d |-> sts[b].d, v |-> sts[b].v]]

RECURSIVE PickInits(_, _)
PickInits(m, b) ==
  IF b = 0 THEN {<<>>}
  ELSE UNION { UNION { {<<v>> \o s : s \in PickInits(m, b - 1)} : v \in PickVec(c, m) } : c \in Pick(Inits) }

Init == phase = "new" /\ n = 0 /\ init = <<>> /\ prog = <<>> /\ psi = <<>> /\ todo = 0 /\ hist = <<>>
Open == /\ phase = "new" /\ phase' = "open"
        /\ \E m \in Pick(Sizes) : \E b \in Pick(Batch) : \E l \in Pick(Lengths) : \E iv \in PickInits(m, b) :
             /\ n' = m /\ init' = iv /\ todo' = l
             /\ psi' = [j \in 1..b |-> St(m, 0, 1, iv[j])]
        /\ prog' = <<>> /\ hist' = <<>>

(* a gate on usable qubits is recorded and acts *)
Accept(op, rs) ==
  /\ prog' = Append(prog, op) /\ psi' = States(rs)
  /\ hist' = Append(hist, [a |-> "ok", op |-> op, label |-> LLabel(op.g), len |-> Len(prog) + 1, psi |-> Shot(States(rs))])
Request ==
  \E g \in Pick({k \in Kinds \cap LKinds : Arity(k, n) # {}}) : \E op \in PickOp(g, n) : \E pf \in PickFree(Len(op.p)) :
     LET r1 == RunAll(psi, <<op>>)
         op2 == [op EXCEPT !.p = pf]
         r2 == RunAll(psi, <<op2>>)
     IN IF AllOK(r1) THEN Accept(op, r1)
        ELSE IF AllOK(r2) THEN Accept(op2, r2) ELSE UNCHANGED <<prog, psi, hist>>

(* a request with an unusable tuple of qubits: out of range on either side, or one qubit twice *)
BadTuple(g, w) == \/ \E j \in DOMAIN w : w[j] < 0 \/ w[j] >= n
                  \/ \E i, j \in DOMAIN w : i # j /\ w[i] = w[j] /\ (g # "mcc" \/ j = Len(w) \/ i = Len(w))
PickBadWires(g) ==
  LET k == IF g \in {"H", "X", "Y", "Z", "rx", "ry", "rz"} THEN 1 ELSE IF g = "mcc" THEN 3 ELSE 2
      Tup == [1..k -> (-2)..(n + 1)]
  IN Pick({w \in Tup : BadTuple(g, w)})
Refuse ==
  /\ \E g \in Pick(Kinds \cap LKinds) : \E w \in PickBadWires(g) : \E p \in PickParams(NumParams(g, Len(w), 1), 60) :
       hist' = Append(hist, [a |-> "bad", op |-> Op(g, w, p), label |-> LLabel(g), len |-> Len(prog), psi |-> Shot(psi)])
  /\ UNCHANGED <<prog, psi>>

Step == /\ phase = "open" /\ todo > 0 /\ todo' = todo - 1
        /\ \E r \in Pick(1..10) : IF r <= BadW THEN Refuse ELSE Request
        /\ UNCHANGED <<phase, n, init>>
Rev(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i]]
ZVals == [b \in DOMAIN psi |-> [q \in 1..n |-> Expect(psi[b], << <<1, << <<q - 1, "Z">> >> >> >>)]]
Finish ==
  /\ phase = "open" /\ todo = 0 /\ phase' = "done"
  /\ LET rev == RunAll([b \in DOMAIN init |-> St(n, 0, 1, init[b])], Rev(prog))
     IN OutFile # "" => CSVWrite("%1$s", <<ToJson([n |-> n, init |-> init, ev |-> hist, psi |-> Shot(psi), prog |-> prog,
                           rev |-> IF AllOK(rev) THEN <<Shot(States(rev))>> ELSE <<>>, z |-> ZVals])>>, OutFile)
  /\ UNCHANGED <<n, init, prog, psi, todo, hist>>
Next == Open \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

StateIsProgram == \A b \in DOMAIN psi : SameState(psi[b], Run(St(n, 0, 1, init[b]), CircEls(prog)))
NormKept == \A b \in DOMAIN psi : LET f == InnerF(psi[b], psi[b])
                                  IN f.x = RTimesSqrt2Pow(f.k, RInt(f.d * Norm2(init[b])))
NothingUnusable == \A i \in DOMAIN prog : ~BadTuple(prog[i].g, prog[i].w)
=============================================================================
